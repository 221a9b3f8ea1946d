SPECIFICATION Spec
CONSTANTS
  Tops = {"square", "thick", "ladder"}
  Kinds = {"flex", "perf"}
  Options = {"one", "two", "down", "igp"}
INVARIANTS BruteForce Conserved NoShortcuts Out
CHECK_DEADLOCK FALSE
