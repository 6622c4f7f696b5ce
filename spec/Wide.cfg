SPECIFICATION Spec
INVARIANT OneClass
