SPECIFICATION Spec
CONSTANTS
  Kinds = {"flex", "perf"}
  Depth = 2
INVARIANTS Emit Closed Repeating
CHECK_DEADLOCK FALSE
