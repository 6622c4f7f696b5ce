SPECIFICATION Spec
CONSTANTS N = 3
  Kinds = {"ok", "fail", "sig", "nodir", "nodot", "badarg"}
  Record = TRUE
INVARIANTS Outcome RunOnce Input Apart NoTrace Owned
