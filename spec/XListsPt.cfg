SPECIFICATION Spec
CONSTANTS Kind = "pt"
          Elems <- PtElems
          MaxLen = 2
VIEW View
INVARIANT Keeps
CHECK_DEADLOCK FALSE
