SPECIFICATION Spec
CONSTANTS Kind = "sm"
          Depth = 3
VIEW View
INVARIANT OneEach
CHECK_DEADLOCK FALSE
