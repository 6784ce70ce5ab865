SPECIFICATION Spec
CONSTANT Room = 65536
