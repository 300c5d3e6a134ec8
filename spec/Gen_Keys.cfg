INIT Init
NEXT Next
CONSTANTS
  Pairs = 3
  Steps = 30
  Passwords = {1, 2, 3, 4}
  Msgs = {1, 2, 3}
  Ks = {"age", "pgpe", "pgps"}
  Slow = 4
CHECK_DEADLOCK FALSE
