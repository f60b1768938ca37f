SPECIFICATION Spec
INVARIANTS MeaningKept PixelsKept NormalForm ParamsKept LevelsExist
PROPERTY Ends
CHECK_DEADLOCK FALSE
