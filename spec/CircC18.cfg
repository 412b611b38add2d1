SPECIFICATION Spec
CONSTANTS
  Shape = "c18"
  Rich = FALSE
  MaxDepth = 6
  MaxOps = 2
  NQ = 3
  NB = 2
VIEW View
INVARIANTS InCircuit WellFormed OneActive PlainValues Unset
PROPERTIES ErrIdle LockedIdle FrozenIdle LeaveLocks EnterFree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
