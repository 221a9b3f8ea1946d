SPECIFICATION Spec
CONSTANTS
  Tops = {"ends", "thick"}
  Metrics = {999, 0, 1, 15, 20}
INVARIANTS Delivered OnlyEnabled DefaultCost Equal Out
CHECK_DEADLOCK FALSE
