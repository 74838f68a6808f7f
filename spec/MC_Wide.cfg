CONSTANT N = 60
INIT Init
NEXT Next
INVARIANTS Products Roots Exponentials Angles Squashing Logarithms Constants
CHECK_DEADLOCK FALSE
