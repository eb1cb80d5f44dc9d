CONSTANTS
  MaxLen = 4
  Focus = "copy"
  Emit = FALSE
SPECIFICATION Spec
INVARIANT WalkOnce
INVARIANT RoundTrip
INVARIANT CompatLoads
PROPERTY RemoveProp
PROPERTY ReplaceProp
PROPERTY CopyProp
PROPERTY Local
PROPERTY OneNode
PROPERTY ScopeProp
PROPERTY DimProp
CHECK_DEADLOCK FALSE
