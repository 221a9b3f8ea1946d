SPECIFICATION Spec
CONSTANTS
  Tops = {"square", "thick", "ladder"}
  Kinds = {"flex", "perf"}
  Options = {"none", "one", "two", "asym"}
INVARIANTS BruteForce Conserved NoShortcuts Out
CHECK_DEADLOCK FALSE
