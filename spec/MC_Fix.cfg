CONSTANT N = 400
INIT Init
NEXT Next
INVARIANTS Products Roots Exponentials Logarithms Angles Squashing
CHECK_DEADLOCK FALSE
