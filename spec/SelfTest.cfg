SPECIFICATION Spec
CONSTANTS Coords = {0, 1, 2}
          Tols = {0, 1}
INVARIANTS Predicates Segments Rings Numbers Homogeneous
CHECK_DEADLOCK FALSE
