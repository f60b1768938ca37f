SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 Directed = FALSE
INVARIANTS NodeOnce ReachShown EdgesReal EdgesShown EdgeOnce EllipsisHonest EllipsisThere ReadBack DepthBound LastIsLast MidIsNot
