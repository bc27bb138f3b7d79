CONSTANTS
 W = 2
 H = 2
 Starts <- Two
 What = "read"
SPECIFICATION Spec
INVARIANT AreMeshes
CHECK_DEADLOCK FALSE
