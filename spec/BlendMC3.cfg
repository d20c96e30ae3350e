INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEntries = 3
  Lean = TRUE
INVARIANTS Between Relabel Dual FoldsOk Alone
