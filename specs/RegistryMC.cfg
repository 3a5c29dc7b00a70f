SPECIFICATION Spec
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Edge
