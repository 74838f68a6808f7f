CONSTANT N = 6000
INIT Init
NEXT Next
INVARIANTS Products Roots Exponentials Logarithms Angles Squashing
CHECK_DEADLOCK FALSE
