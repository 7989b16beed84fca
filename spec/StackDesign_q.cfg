SPECIFICATION Spec
CONSTANTS MaxLayers = 3
INVARIANTS NothingEscapes AlwaysAnswered Transparent PanicIs500
PROPERTY Terminates
