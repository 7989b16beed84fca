CONSTANTS
  Early = TRUE
  Origins = {"http://a", "http://b", "null", "", "a", "http://a%20"}
  Methods = {"GET", "POST", "PUT", "OPTIONS"}

SPECIFICATION Spec
INVARIANTS Guarded Once
PROPERTIES Usable Ends
CHECK_DEADLOCK FALSE
