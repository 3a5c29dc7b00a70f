SPECIFICATION Spec
CONSTANTS R = 2
 C = 3
 Values = {0, 1}
 D = 4
INVARIANTS Thm Point
