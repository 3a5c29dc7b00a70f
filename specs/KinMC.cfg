SPECIFICATION Spec
CONSTANTS MaxJoints = 2
 Axes = {0, 2}
 Origins = {1, 2}
INVARIANT Thm
ACTION_CONSTRAINT Edge
