INIT Init
NEXT Next
CONSTANTS
  Steps = 60
  MaxLen = 24
  RO = FALSE
INVARIANT Printed
CHECK_DEADLOCK FALSE
