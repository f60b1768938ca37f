SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 Directed = TRUE
INVARIANTS NodeOnce ReachShown EdgesReal EdgesShown EdgeOnce EllipsisHonest EllipsisThere ReadBack DepthBound LastIsLast MidIsNot
