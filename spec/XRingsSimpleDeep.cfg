SPECIFICATION Spec
CONSTANTS What = "simple"
          W = 3
          H = 3
          MaxN = 5

CHECK_DEADLOCK FALSE
