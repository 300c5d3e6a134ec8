INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Depth = 2
  Calls = 3
INVARIANTS Shown PureFunctionOfTape Designated LastWritten WellFormedTree Converges CutOff OnlySubtree
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
