SPECIFICATION Spec
CONSTANT Size = 2
INVARIANT Thm
