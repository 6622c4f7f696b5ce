SPECIFICATION Spec
PROPERTY Grows
