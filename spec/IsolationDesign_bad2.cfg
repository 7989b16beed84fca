CONSTANTS
  Requests = {1, 2, 3}
  Buffers = {b1, b2, b3}
  RELEASE = "twice"
SYMMETRY Symmetric
SPECIFICATION Spec
INVARIANT OwnOnly
CHECK_DEADLOCK FALSE
