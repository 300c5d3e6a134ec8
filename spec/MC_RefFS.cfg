INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Depth = 2
  MaxTok = 1
  Export = FALSE
VIEW View
INVARIANT TypeOK
PROPERTIES Atomic Frame Whole NoOwnSubtree
ACTION_CONSTRAINT Exported
CHECK_DEADLOCK FALSE
