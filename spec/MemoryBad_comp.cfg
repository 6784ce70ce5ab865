SPECIFICATION Spec
CONSTANT Drop = "comp"
INVARIANT Sound
