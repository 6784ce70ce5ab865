SPECIFICATION Spec
CONSTANT Flaw = "close"
INVARIANT EndOk
