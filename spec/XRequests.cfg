SPECIFICATION Spec
CONSTANTS Depth = 3
          Rich = FALSE
CHECK_DEADLOCK FALSE
