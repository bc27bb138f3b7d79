CONSTANTS
 Depth = 3
 Uses = {"circle", "chole", "arc", "peq", "cut", "write"}
SPECIFICATION Spec
PROPERTY Settings
CHECK_DEADLOCK FALSE
