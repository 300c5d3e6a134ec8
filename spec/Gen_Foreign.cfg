INIT Init
NEXT NextF
CONSTANTS
  Members = 8
  Dup = TRUE
  Names = {"a", "b", "c"}
  MaxDepth = 3
  Steps = 30
  MaxLen = 4
  Focus = "all"
INVARIANT Printed
CHECK_DEADLOCK FALSE
