SPECIFICATION Spec
CONSTANTS MaxJoints = 3
 Axes = {2}
 Origins = {3}
INVARIANT Thm
ACTION_CONSTRAINT Edge
