CONSTANTS
 What = "plain"
 Sizes <- SomeSizes
 Corners = {0, 3}
 Depth = 2
SPECIFICATION Spec
INVARIANT States
CHECK_DEADLOCK FALSE
