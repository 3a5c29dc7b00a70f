SPECIFICATION Spec
CONSTANTS
  TY = "SO2"
  DEPTH = 4
INVARIANTS Theorems
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
