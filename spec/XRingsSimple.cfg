SPECIFICATION Spec
CONSTANTS What = "simple"
          W = 3
          H = 3
          MaxN = 4

CHECK_DEADLOCK FALSE
