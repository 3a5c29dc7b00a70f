SPECIFICATION Spec
INVARIANTS Differences Turn
ACTION_CONSTRAINT Edge
VIEW View
