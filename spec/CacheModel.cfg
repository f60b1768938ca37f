SPECIFICATION Spec
CONSTANTS K = {1, 2, 3}
 MaxCap = 3
 MaxT = 6
INVARIANTS Bounded NoDup Ordered Recent
PROPERTIES EvictOld
CHECK_DEADLOCK FALSE
