SPECIFICATION Spec
CONSTANTS N = 3
  Kinds = {"ok", "fail", "nodir", "nowrite", "nodot"}
  Record = FALSE
INVARIANTS Outcome RunOnce Input Apart NoTrace Owned
PROPERTY Returns
