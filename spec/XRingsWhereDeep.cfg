SPECIFICATION Spec
CONSTANTS What = "where"
          W = 4
          H = 3
          MaxN = 5

CHECK_DEADLOCK FALSE
