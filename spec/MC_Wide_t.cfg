CONSTANT N = 700
INIT Init
NEXT Next
INVARIANTS Products Roots Exponentials Angles Squashing Logarithms Constants
CHECK_DEADLOCK FALSE
