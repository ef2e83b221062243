SPECIFICATION Spec
CONSTANTS
  P = 4
  J = 4
  Defect = "none"
INVARIANTS AtMostJ Conserved
CHECK_DEADLOCK FALSE
