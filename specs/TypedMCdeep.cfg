SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Closed
ACTION_CONSTRAINT Edge
VIEW View
