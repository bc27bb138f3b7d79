SPECIFICATION Spec
CONSTANTS Shapes <- AllShapes
          MaxSeeds = 3
CHECK_DEADLOCK FALSE
