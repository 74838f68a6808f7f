CONSTANT K = 3
INIT Init
NEXT Next
INVARIANTS Ring Quotient Involution Order
CHECK_DEADLOCK FALSE
