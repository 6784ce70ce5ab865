SPECIFICATION Spec
CONSTANT Drop = "side"
INVARIANT Sound
