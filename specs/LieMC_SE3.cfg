SPECIFICATION Spec
CONSTANTS
  TY = "SE3"
  T = 1
INVARIANTS Alg AdHat BasisHat PointJac
ACTION_CONSTRAINT Edge
VIEW View
