SPECIFICATION Spec
CONSTANTS
  Files = 2
  Others = 1
  MaxMods = 1
  BadSigs = {0}
  Flaws = {}
  Headerlike = FALSE
  Export = FALSE
INVARIANTS Sound Faithful Complete
CHECK_DEADLOCK FALSE
