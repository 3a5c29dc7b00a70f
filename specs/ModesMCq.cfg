SPECIFICATION Spec
CONSTANTS Depth = 4
 Threads = {1, 2}
INVARIANTS Scoped Whole
PROPERTIES Local Refused Params
VIEW View
