SPECIFICATION Spec
CONSTANTS
  Uris = {"a", "b", "c"}
  Texts = {"t1", "t2", "t3", "t4"}
  Questions = {"q1", "q2", "q3", "q4", "q5", "q6"}
  Kinds = {"open", "change", "close", "ask", "malformed", "unknown", "note", "badnote", "response"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
