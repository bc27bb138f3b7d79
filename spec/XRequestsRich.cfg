SPECIFICATION Spec
CONSTANTS Depth = 3
          Rich = TRUE
CHECK_DEADLOCK FALSE
