SPECIFICATION Spec
INVARIANT AllItems
INVARIANT FormsAgree
