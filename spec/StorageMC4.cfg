INIT Init
NEXT Next
CONSTANT Inputs = 4
CHECK_DEADLOCK FALSE
INVARIANTS ReadsBack OwnPlaces
