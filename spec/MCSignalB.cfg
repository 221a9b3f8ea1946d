SPECIFICATION Spec
CONSTANTS
  Tops = {"two", "equal", "hops", "thick"}
  Kinds = {"flex"}
  Caps = {10, 20, 30}
  Traffic = {120, 240}
  Fixed = {150}
  MaxGroup = 3
  Others = {"auto", "fixed"}
INVARIANTS Fit Paths Shares Accepted Unique Out
CHECK_DEADLOCK FALSE
