INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEntries = 2
  Lean = FALSE
INVARIANTS Between Relabel Dual FoldsOk Alone
