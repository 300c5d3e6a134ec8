INIT Init
NEXT Next
CONSTANTS
  DirNames = {"a", "b"}
  FileNames = {"f", "g"}
  MaxDepth = 3
  Steps = 20
  Clients = 3
  Hot = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
