SPECIFICATION Spec
CONSTANTS
  Tops = {"two", "equal", "hops", "thick"}
  Kinds = {"perf"}
  Caps = {10, 20}
  Traffic = {240, 360}
  Fixed = {50}
  MaxGroup = 4
  Others = {"none", "fixed"}
INVARIANTS Fit Paths Shares Accepted Unique Out
CHECK_DEADLOCK FALSE
