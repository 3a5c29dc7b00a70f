SPECIFICATION Spec
CONSTANTS Depth = 3
 Threads = {1, 2}
INVARIANTS Scoped Whole
PROPERTIES Local Refused Params
ACTION_CONSTRAINT Edge
VIEW View
