CONSTANTS
 W = 3
 H = 2
 Starts <- Four
 What = "read"
SPECIFICATION Spec
INVARIANT AreMeshes
CHECK_DEADLOCK FALSE
