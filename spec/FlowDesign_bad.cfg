CONSTANTS MaxLayers = 2
Careless = TRUE
SPECIFICATION Spec
INVARIANTS AsSent HeadersStay ValuesStay OuterStays LastPrincipal NonceBelow Untouched
PROPERTY Terminates
CHECK_DEADLOCK FALSE
