SPECIFICATION Spec
INVARIANTS ReadAll Spelling
PROPERTY Forward
