SPECIFICATION Spec
CONSTANTS MaxLayers = 4
INVARIANTS NothingEscapes AlwaysAnswered Transparent PanicIs500
PROPERTY Terminates
