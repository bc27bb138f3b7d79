SPECIFICATION Spec
CONSTANTS What = "tri"
          W = 3
          H = 3
          MaxN = 6

CHECK_DEADLOCK FALSE
