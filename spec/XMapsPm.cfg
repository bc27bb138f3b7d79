SPECIFICATION Spec
CONSTANTS Kind = "pm"
          Depth = 3
VIEW View
INVARIANT OneEach
CHECK_DEADLOCK FALSE
