SPECIFICATION Spec
CONSTANTS
  Tops = {"two", "equal", "hops", "thick"}
  Kinds = {"flex"}
  Caps = {10, 20}
  Traffic = {120, 240}
  Fixed = {100}
  MaxGroup = 3
  Others = {"none", "auto"}
INVARIANTS Fit Paths Shares Accepted Unique Out
CHECK_DEADLOCK FALSE
