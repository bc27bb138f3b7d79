SPECIFICATION Spec
CONSTANTS Depth = 3
          SeedSets <- SmallSets
VIEW View
INVARIANTS CutsRight Classified SeedsInside
CHECK_DEADLOCK FALSE
