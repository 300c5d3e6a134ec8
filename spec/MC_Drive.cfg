SPECIFICATION Spec
CONSTANTS
  Callers = {"x", "y"}
  Calls = 2
  Faults = 2
  KeepOnError = FALSE
INVARIANTS Bracketed NeverStuck FreeBetween OneUser
PROPERTIES AllReturn
