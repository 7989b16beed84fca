CONSTANTS
  Requests = {1, 2, 3, 4}
  Buffers = {b1, b2, b3, b4}
  RELEASE = "end"
SYMMETRY Symmetric
SPECIFICATION Spec
INVARIANT OwnOnly
INVARIANT CopyOwn
INVARIANT Exclusive
INVARIANT Lent
INVARIANT Clean
CHECK_DEADLOCK FALSE
