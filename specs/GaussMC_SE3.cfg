SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Inverse
CONSTANTS Ty = "SE3" Depth = 2
