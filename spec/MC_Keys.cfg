SPECIFICATION Spec
CONSTANTS
  MaxPairs = 2
  MaxThings = 2
  Passwords = {0, 1, 2}
  Msgs = {1, 2}
  Ks = {"age", "minisign"}
  Careless = FALSE
INVARIANTS Guarded Own Usable
CHECK_DEADLOCK FALSE
