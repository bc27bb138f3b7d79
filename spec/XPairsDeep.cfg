CONSTANTS
 W = 4
 H = 4
 Per = 40
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
