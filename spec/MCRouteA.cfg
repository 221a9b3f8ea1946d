SPECIFICATION Spec
CONSTANTS
  Tops = {"square", "thick", "ladder"}
  Kinds = {"flex", "perf"}
  Options = {"none", "one", "two"}
INVARIANTS BruteForce Conserved NoShortcuts Out
CHECK_DEADLOCK FALSE
