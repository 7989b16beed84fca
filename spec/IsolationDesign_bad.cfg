CONSTANTS
  Requests = {1, 2}
  Buffers = {b1, b2}
  RELEASE = "return"
SYMMETRY Symmetric
SPECIFICATION Spec
INVARIANT OwnOnly
CHECK_DEADLOCK FALSE
