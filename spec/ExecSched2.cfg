SPECIFICATION Spec
CONSTANTS N = 2
  Kinds = {"ok", "fail", "sig", "nodir", "nodot", "badarg"}
  Record = TRUE
INVARIANTS Outcome RunOnce Input Apart NoTrace Owned
