CONSTANTS Vals <- ValsT  BVals <- BValsT  Nets = {"d1d2", "cfd", "ccf", "crf"}
INIT Init
NEXT Next
INVARIANT GradientIsDerivative
CHECK_DEADLOCK FALSE
