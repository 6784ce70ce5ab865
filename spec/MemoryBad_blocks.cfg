SPECIFICATION Spec
CONSTANT Drop = "blocks"
INVARIANT Sound
