SPECIFICATION Spec
INVARIANT Distinct
