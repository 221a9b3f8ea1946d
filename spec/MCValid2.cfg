SPECIFICATION Spec
CONSTANTS
  Pairs2 <- TwoPairs
  Names = {"x", "y"}
  Ckts = {"1", "2"}
  Caps = {1, 2}
  MaxIfs = 3
  Kinds = {"flex", "perf"}
  NodeSets <- TwoNodes
INVARIANTS Emit EvenCount CircuitsIndependent PerfIsStricter
CHECK_DEADLOCK FALSE
