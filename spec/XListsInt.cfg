SPECIFICATION Spec
CONSTANTS Kind = "int"
          Elems <- IntElems
          MaxLen = 2
VIEW View
INVARIANT Keeps
CHECK_DEADLOCK FALSE
