CONSTANTS
  Early = FALSE
  Origins = {"http://a", "http://b", "null", "", "a", "http://a%20"}
  Methods = {"GET", "POST", "PUT", "OPTIONS"}

SPECIFICATION Spec
INVARIANTS Guarded Once

CHECK_DEADLOCK FALSE
