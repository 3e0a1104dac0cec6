SPECIFICATION Spec
CONSTANT Shows <- Fresh
CHECK_DEADLOCK FALSE
