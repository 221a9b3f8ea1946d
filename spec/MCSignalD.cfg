SPECIFICATION Spec
CONSTANTS
  Tops = {"three", "many", "mixed", "six"}
  Kinds = {"flex", "perf"}
  Caps = {10, 20}
  Traffic = {120, 240}
  Fixed = {300}
  MaxGroup = 3
  Others = {"none"}
INVARIANTS Fit Paths Shares Accepted Unique Out
CHECK_DEADLOCK FALSE
