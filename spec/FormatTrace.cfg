SPECIFICATION Spec
VIEW View
ALIAS Brief
