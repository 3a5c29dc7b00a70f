SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Closed
ACTION_CONSTRAINT Edge
VIEW View
