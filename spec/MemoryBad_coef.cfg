SPECIFICATION Spec
CONSTANT Drop = "coef"
INVARIANT Sound
