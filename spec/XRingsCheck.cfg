SPECIFICATION Spec
CONSTANTS What = "ask"
          W = 3
          H = 3
          MaxN = 6
INVARIANT Agree
CHECK_DEADLOCK FALSE
