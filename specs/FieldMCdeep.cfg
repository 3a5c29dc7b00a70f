SPECIFICATION Spec
CONSTANTS R = 3
 C = 3
 Values = {0, 2}
 D = 2
INVARIANTS Thm Point
