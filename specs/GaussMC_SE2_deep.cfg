SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Inverse
CONSTANTS Ty = "SE2" Depth = 3
