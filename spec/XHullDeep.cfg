CONSTANTS
 W = 4
 H = 4
 Most = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
