CONSTANT K = 5
INIT Init
NEXT Next
INVARIANTS Ring Quotient Involution Order
CHECK_DEADLOCK FALSE
