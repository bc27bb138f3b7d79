CONSTANTS
 What = "plain"
 Sizes <- SomeSizes
 Corners = {0, 3}
 Depth = 3
SPECIFICATION Spec
INVARIANT States
CHECK_DEADLOCK FALSE
