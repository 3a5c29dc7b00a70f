SPECIFICATION Spec
CONSTANTS
  TY = "SE2"
  T = 2
INVARIANTS Alg AdHat BasisHat PointJac
ACTION_CONSTRAINT Edge
VIEW View
