SPECIFICATION Spec
CONSTANTS Coords <- WideCoords
          Tols = {0, 3}
INVARIANTS Predicates Segments Rings Numbers Homogeneous
CHECK_DEADLOCK FALSE
