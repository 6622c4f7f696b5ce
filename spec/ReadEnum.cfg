SPECIFICATION Spec
INVARIANTS Balanced AcceptsAtEnd DepthOK Complete
PROPERTY Monotone
