SPECIFICATION Spec
CONSTANTS
  Tops = {"diamond", "thick", "uneven"}
  Metrics = {999, 998, 0}
INVARIANTS Delivered OnlyEnabled DefaultCost Equal Out
CHECK_DEADLOCK FALSE
