CONSTANTS
 W = 3
 H = 2
 Starts <- Two
 What = "write"
SPECIFICATION Spec
INVARIANT AreMeshes
CHECK_DEADLOCK FALSE
