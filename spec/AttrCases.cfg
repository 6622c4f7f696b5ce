SPECIFICATION Spec
INVARIANT AlwaysValid
