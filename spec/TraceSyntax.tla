------------------------------ MODULE TraceSyntax ------------------------------
(***************************************************************************)
(* Judges recorded parses.  An event carries the text (C, characters), the *)
(* tool's leaf tokens (kind, first, last; in characters), whether the text *)
(* of the tree equals the input, and the reported errors (ranges in        *)
(* characters, 0-based, end exclusive; -1 if not a character boundary).    *)
(***************************************************************************)
EXTENDS WatSyntax, Json, IOUtils, Integers

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
View == l

Diff(p, what, t, got, want) ==
  [p |-> p, what |-> what, t |-> t, got |-> ToString(got), want |-> ToString(want)]

Tiles(e) == /\ (Len(e.toks) = 0) = (Len(e.C) = 0)
            /\ Len(e.toks) > 0 => e.toks[1].a = 1 /\ e.toks[Len(e.toks)].z = Len(e.C)
            /\ \A j \in 1..Len(e.toks) : e.toks[j].a <= e.toks[j].z
            /\ \A j \in 1..(Len(e.toks) - 1) : e.toks[j + 1].a = e.toks[j].z + 1

ErrorsInside(e) == \A j \in 1..Len(e.errs) : 0 <= e.errs[j].s /\ e.errs[j].s <= e.errs[j].z /\ e.errs[j].z <= Len(e.C)

JudgeTree(e) ==
  (IF e.same THEN {} ELSE {Diff("W01", "the tree does not reproduce the text", 0, "", "")})
  \cup (IF e.same /\ ~Tiles(e) THEN {Diff("W01", "tokens do not tile the text", 0, e.toks, "")} ELSE {})
  \cup (IF ErrorsInside(e) THEN {} ELSE {Diff("W01", "error range", 0, e.errs, Len(e.C))})

\* tool token kinds by the specification's
KindOK(t, w) ==
  CASE w.k \in {"ws"} -> t.k = "WHITESPACE" [] w.k = "lc" -> t.k = "LINE_COMMENT" [] w.k = "bc" -> t.k = "BLOCK_COMMENT"
    [] w.k = "lp" -> t.k = "L_PAREN" [] w.k = "rp" -> t.k = "R_PAREN" [] w.k = "str" -> t.k = "STRING"
    [] w.k = "id" -> t.k = "IDENT" [] w.k = "nat" -> t.k \in {"INT", "UNSIGNED_INT"} [] w.k = "int" -> t.k = "INT"
    [] w.k = "float" -> t.k = "FLOAT" [] w.k = "memarg" -> t.k = "MEM_ARG"
    [] w.k = "kw" -> t.k \in {"KEYWORD", "INSTR_NAME", "NUM_TYPE", "VEC_TYPE", "REF_TYPE", "HEAP_TYPE", "SHARE"}
    [] OTHER -> FALSE
TokensOK(e, L) ==
  /\ Len(e.toks) = Len(L)
  /\ \A j \in 1..Len(L) : e.toks[j].a = L[j].a /\ e.toks[j].z = L[j].z
       /\ KindOK(e.toks[j], [L[j] EXCEPT !.k = IF L[j].k = "word" THEN WordKind(e.C, L[j].a, L[j].z) ELSE L[j].k])

JudgeAccept(e) ==
  LET C == TLCEval(e.C)
      L == TLCEval(Lex(C))
      T == TLCEval(Visible(C, L))
      ok == Len(e.errs) = 0
      class == TLCEval(IF WellFormed(T) THEN "well" ELSE IF IllFormed(T) THEN "ill" ELSE "open")
  IN IF ~PrintT("@#" \o class) THEN {}
     ELSE IF class = "well"
     THEN (IF ok THEN {} ELSE {Diff("W02", "error on well-formed text", 0, e.errs, "no error")})
          \cup (IF ok /\ ~TokensOK(e, L) THEN {Diff("W02", "tokens", 0, e.toks, L)} ELSE {})
     ELSE IF class = "ill" /\ ok THEN {Diff("W02", "no error on ill-formed text", 0, "", "an error")}
     ELSE {}

Judge(e) == JudgeTree(e) \cup (IF e.judge THEN JudgeAccept(e) ELSE {})

Init == l = 1 /\ bad = 0
Parse == LET e == Log[l] IN
  /\ e.e = "parse"
  /\ LET m == Judge(e) IN IF m = {} THEN UNCHANGED bad
                          ELSE PrintT("@@" \o ToJson([l |-> l, m |-> m])) /\ bad' = bad + 1
Crash == LET e == Log[l] IN
  /\ e.e = "crash"
  /\ PrintT("@@" \o ToJson([l |-> l, m |-> {Diff(e.p, "crash in " \o e.where, 0, e.msg, "an answer")}]))
  /\ bad' = bad + 1
Reset == Log[l].e = "reset" /\ UNCHANGED bad
Next == l <= Len(Log) /\ l' = l + 1 /\ (Parse \/ Crash \/ Reset)
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT("@!" \o ToJson([len |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                   generated |-> TLCGet("stats").generated]))
            /\ TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
