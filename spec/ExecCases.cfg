SPECIFICATION Spec
INVARIANTS OneWordEach SuccessOnlyByZero
