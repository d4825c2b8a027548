SPECIFICATION Spec
CONSTANTS
  Uris = {"a", "b"}
  Texts = {"t1", "t2"}
  Questions = {"q"}
  Kinds = {"open", "change", "close", "ask", "malformed", "unknown", "note"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
