SPECIFICATION Spec
INVARIANTS Conforms AllReturned
ALIAS Alias
