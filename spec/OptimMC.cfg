INIT Init
NEXT Next
CONSTANTS
Ns = {2, 3}
Depth = 2
INVARIANTS Emit WeakDuality NoFalseFarkas GapLaw
PROPERTIES OnlyShrinks
CHECK_DEADLOCK FALSE
