SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  RecordSizes = {1, 128}
  SameChunks = TRUE
  Export = FALSE
INVARIANTS Announced RoundTrip NameKept
CHECK_DEADLOCK FALSE
