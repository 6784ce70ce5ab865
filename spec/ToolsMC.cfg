SPECIFICATION Spec
CONSTANT Flaw = ""
INVARIANT EndOk
PROPERTY Ends
