SPECIFICATION Spec
CONSTANTS
  TY = "SO3"
  DEPTH = 3
INVARIANTS Theorems
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
VIEW View
