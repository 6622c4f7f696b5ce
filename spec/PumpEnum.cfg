SPECIFICATION Spec
INVARIANT NoKeyword
PROPERTY Forward
