CONSTANTS MaxLayers = 3
Careless = FALSE
SPECIFICATION Spec
INVARIANTS AsSent HeadersStay ValuesStay OuterStays LastPrincipal NonceBelow Untouched
PROPERTY Terminates
CHECK_DEADLOCK FALSE
