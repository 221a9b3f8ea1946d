SPECIFICATION Spec
CONSTANTS
  Tops = {"pair", "chain"}
  Groups2 = {"G"}
  MaxMembers = 3
CONSTRAINT Small
INVARIANTS Consistent Frame Undo Restores Emit
CHECK_DEADLOCK FALSE
