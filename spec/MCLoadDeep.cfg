SPECIFICATION Spec
CONSTANTS
  Kinds = {"flex", "perf"}
  Depth = 3
INVARIANTS Emit Closed Repeating
CHECK_DEADLOCK FALSE
