SPECIFICATION Spec
CONSTANTS
  Pairs2 <- ThreePairs
  Names = {"x", "y"}
  Ckts = {"1", "2"}
  Caps = {1}
  MaxIfs = 4
  Kinds = {"flex", "perf"}
  NodeSets <- ThreeNodes
INVARIANTS Emit EvenCount CircuitsIndependent PerfIsStricter
CHECK_DEADLOCK FALSE
