SPECIFICATION Spec
CONSTANT Drop = ""
INVARIANT Sound
