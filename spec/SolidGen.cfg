SPECIFICATION Spec
CONSTANTS
  Reg <- GenReg
  Resources <- GenResources
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
