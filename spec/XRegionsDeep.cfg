SPECIFICATION Spec
CONSTANTS Depth = 4
          SeedSets <- AllSets
VIEW View
INVARIANTS CutsRight Classified SeedsInside
CHECK_DEADLOCK FALSE
