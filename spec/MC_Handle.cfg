INIT Init
NEXT Next
CONSTANTS
  MaxLen = 2
  Wpr = FALSE
  Export = FALSE
VIEW View
INVARIANT TypeOK
PROPERTIES Positioned ReadsKeep NoReadOnlyChange Advance Region
ACTION_CONSTRAINT Exported
CHECK_DEADLOCK FALSE
