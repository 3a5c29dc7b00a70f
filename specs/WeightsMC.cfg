SPECIFICATION Spec
INVARIANT Sound
INVARIANT ZeroInv
