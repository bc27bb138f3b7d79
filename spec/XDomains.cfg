SPECIFICATION Spec
CONSTANTS Shapes <- AllShapes
          MaxSeeds = 2
CHECK_DEADLOCK FALSE
