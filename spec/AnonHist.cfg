SPECIFICATION Spec
CONSTANTS Threads = 3
  Parts <- PartsM
  Most = 4
  Record = TRUE
INVARIANTS Distinct Complete
