SPECIFICATION Spec
CONSTANTS
  TY = "SO3"
  T = 0
INVARIANTS Alg AdHat BasisHat PointJac
ACTION_CONSTRAINT Edge
VIEW View
