SPECIFICATION Spec
INVARIANTS Conforms TypeOK
ALIAS Alias
