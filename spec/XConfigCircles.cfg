CONSTANTS
 Depth = 4
 Uses = {"circle", "chole", "arc"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
