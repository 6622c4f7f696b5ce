SPECIFICATION Spec
CONSTANTS Threads = 3
  Parts <- PartsM
  Most = 3
  Record = FALSE
INVARIANTS Distinct Complete
