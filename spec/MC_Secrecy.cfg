SPECIFICATION Spec
CONSTANTS
  MaxRecords = 4
  Leaks = {}
  Open = {}
INVARIANTS Blind Stranger Useless Owner
CHECK_DEADLOCK FALSE
