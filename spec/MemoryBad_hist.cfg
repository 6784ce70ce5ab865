SPECIFICATION Spec
CONSTANT Drop = "hist"
INVARIANT Sound
