SPECIFICATION Spec
CONSTANT Flaw = "short"
INVARIANT EndOk
