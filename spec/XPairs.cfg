CONSTANTS
 W = 3
 H = 3
 Per = 24
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
