INIT Init
NEXT Next
CONSTANTS
  Prop = "ALL"
  NCallers = 2
  NOps = 2
  MaxFaults = 2
  MaxConn = 4
  Sasl = TRUE
  CloseOnFail = TRUE
INVARIANTS Refused HealsB04 UnauthenticatedB02
CHECK_DEADLOCK TRUE
