SPECIFICATION Spec
INVARIANT Denotes
