SPECIFICATION Spec
CONSTANTS Shapes <- AllShapes
          MaxSegs = 1
          SeedChoices <- AllSeeds
CHECK_DEADLOCK FALSE
