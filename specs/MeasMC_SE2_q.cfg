SPECIFICATION Spec
CONSTANTS
  TY = "SE2"
  DEPTH = 3
INVARIANTS Theorems
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
