SPECIFICATION Spec
INVARIANTS Conforms OneText
ALIAS Alias
