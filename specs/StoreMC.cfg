SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
PROPERTY Pure
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
