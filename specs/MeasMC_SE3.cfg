SPECIFICATION Spec
CONSTANTS
  TY = "SE3"
  DEPTH = 4
INVARIANTS Theorems
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
