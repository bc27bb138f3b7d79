SPECIFICATION Spec
CONSTANTS Shapes <- AllShapes
          MaxSegs = 2
          SeedChoices <- OneSeed
CHECK_DEADLOCK FALSE
