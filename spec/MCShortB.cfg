SPECIFICATION Spec
CONSTANTS
  Tops = {"chain", "diamond", "uneven", "thick"}
  Metrics = {999, 0, 1, 10, 30}
INVARIANTS Delivered OnlyEnabled DefaultCost Equal Out
CHECK_DEADLOCK FALSE
