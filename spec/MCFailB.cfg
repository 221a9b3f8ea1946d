SPECIFICATION Spec
CONSTANTS
  Tops = {"pair", "triple", "chain", "fchain", "triangle", "star"}
  Groups2 = {"G"}
  MaxMembers = 3
CONSTRAINT Small
INVARIANTS Consistent Frame Undo Restores Emit
CHECK_DEADLOCK FALSE
