SPECIFICATION Spec
INVARIANT Conforms
ALIAS Alias
