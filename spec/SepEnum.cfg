SPECIFICATION Spec
INVARIANT Invisible
