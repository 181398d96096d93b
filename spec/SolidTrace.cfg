SPECIFICATION Spec
CONSTANTS
  Reg <- TraceReg
  Resources <- TraceResources
CHECK_DEADLOCK FALSE
