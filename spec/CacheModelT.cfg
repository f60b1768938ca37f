SPECIFICATION Spec
CONSTANTS K = {1, 2, 3, 4}
 MaxCap = 3
 MaxT = 7
INVARIANTS Bounded NoDup Ordered Recent
PROPERTIES EvictOld
CHECK_DEADLOCK FALSE
