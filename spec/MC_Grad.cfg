CONSTANTS Vals <- ValsQ  BVals <- BValsQ  Nets = {"d1d2", "cfd", "ccf", "crf"}
INIT Init
NEXT Next
INVARIANT GradientIsDerivative
CHECK_DEADLOCK FALSE
