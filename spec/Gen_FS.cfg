INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b", "c"}
  MaxDepth = 3
  Steps = 30
  MaxLen = 4
  Focus = "all"
INVARIANT Printed
CHECK_DEADLOCK FALSE
