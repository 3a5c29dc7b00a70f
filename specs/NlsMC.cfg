SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2}
  Errs = {0, 1, 5}
  K1 = 2
  K2 = 1
INVARIANTS BestOK HistOK ConvOK MaxOK StatusOK
PROPERTIES Frozen Ends
