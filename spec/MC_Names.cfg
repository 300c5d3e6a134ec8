SPECIFICATION Spec
CONSTANTS
  Comps = {"a", "b"}
  Depth = 2
  Entries = 2
INVARIANTS OneRow NoMixup SameEntry Rebuilt RootFound
CHECK_DEADLOCK FALSE
