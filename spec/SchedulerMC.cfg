SPECIFICATION Spec
CONSTANTS
  N = 3
  Js = {2}
  Ks = {FALSE, TRUE}
  MaxCmds = 1
  Stamps = {0, 10}
  WithSync = FALSE
  Tokens = 1
  MaxFail = 1
  MaxExt = 0
  Defect = "none"
  Configs <- TheConfigs
VIEW view
INVARIANTS NoRuleBroken WaitsForAReason Conserved
CHECK_DEADLOCK FALSE
