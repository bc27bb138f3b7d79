CONSTANTS
 W = 3
 H = 3
 Most = 9
SPECIFICATION Spec
INVARIANT OneAnswer
CHECK_DEADLOCK FALSE
