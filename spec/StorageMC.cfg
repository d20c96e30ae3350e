INIT Init
NEXT Next
CONSTANT Inputs = 3
CHECK_DEADLOCK FALSE
INVARIANTS ReadsBack OwnPlaces
