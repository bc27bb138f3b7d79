CONSTANTS
 Depth = 4
 Uses = {"circle", "arc", "peq", "cut", "write"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
