SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Inverse
CONSTANTS Ty = "SO2" Depth = 2
