------------------------------ MODULE TraceFormat ------------------------------
(***************************************************************************)
(* Judges recorded formattings.  Events:                                   *)
(*  format : text C, formatted D (characters), out/again (strings: D and   *)
(*           the result of formatting D), others (formattings of the same  *)
(*           tokens with other white space), options o, nodes (if the      *)
(*           text is known); plain: no comments and blank lines            *)
(*  range  : text C, request r, edit range [s, z) (character offsets),     *)
(*           the text T after the edit; stable: C is a formatted text and  *)
(*           the request names whole lines, so nothing may change          *)
(***************************************************************************)
EXTENDS WatFormat, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
View == l

Diff(p, what, t, got, want) ==
  [p |-> p, what |-> what, t |-> t, got |-> ToString(got), want |-> ToString(want)]

\* modules and fields right below a comment that begins with the ignore directive
Leading(c) == LET s == {j \in 3..Len(c) : c[j] \notin Space} IN IF s = {} THEN Len(c) + 1 ELSE CHOOSE j \in s : \A h \in s : j <= h
IsDirective(c, word) ==
  LET b == Leading(c)  z == b + Len(word) - 1
  IN z <= Len(c) /\ SubSeq(c, b, z) = word /\ (z = Len(c) \/ c[z + 1] \in Space)
TokenAt(L) == SelectSeq([j \in 1..Len(L) |-> j], LAMBDA j : L[j].k \notin {"ws", "lc", "bc"})
Ignored(e, L) ==
  LET at == TLCEval(TokenAt(L))
  IN {i \in 1..Len(e.nodes) :
        /\ e.nodes[i].k = "module" \/ (e.nodes[i].p # 0 /\ e.nodes[e.nodes[i].p].k = "module")
        /\ LET j == at[e.nodes[i].a]
           IN j > 2 /\ L[j - 1].k = "ws" /\ L[j - 2].k = "lc" /\ IsDirective(Piece(e.C, L[j - 2]), e.o.directive)}

\* a node's text, up to line breaks
NoCR(s) == SelectSeq(s, LAMBDA c : c # "\r")
NodeText(C, L, at, nd) == NoCR(SubSeq(C, L[at[nd.a]].a, L[at[nd.z]].z))
NotVerbatim(e, L, M, ig) ==
  IF ig = {} THEN {}
  ELSE LET A == TLCEval(TokenAt(L))  B == TLCEval(TokenAt(M))
       IN {i \in ig : NodeText(e.C, L, A, e.nodes[i]) # NodeText(e.D, M, B, e.nodes[i])}

JudgeFormat(e) ==
  LET L == TLCEval(Lex(e.C))
      M == TLCEval(Lex(e.D))
      j == DiffersAt(e.C, L, e.D, M, e.o.comments)
      ig == TLCEval(Ignored(e, L))
  IN IF j # 0 THEN {Diff("W03", "token or comment changed", j, "", "")}
     ELSE (IF e.again = e.out THEN {} ELSE {Diff("W04", "formatting again changes the text", 0, e.again, e.out)})
     \cup (IF \A k \in 1..Len(e.others) : e.others[k] = e.out THEN {}
           ELSE {Diff("W04", "depends on the white space of the input", 0, e.others, e.out)})
     \cup (IF ig = {} /\ Untidy(e.D, M, e.o) # {} THEN {Diff("W04", "white space", 0, Untidy(e.D, M, e.o), "")} ELSE {})
     \cup (IF e.plain /\ LayoutFaults(e.D, M, e.nodes, e.o) # {}
           THEN {Diff("W04", "layout", 0, LayoutFaults(e.D, M, e.nodes, e.o), "")} ELSE {})
     \cup (IF NotVerbatim(e, L, M, ig) = {} THEN {} ELSE {Diff("W05", "ignored field changed", 0, NotVerbatim(e, L, M, ig), "")})

Splice(e) == SubSeq(e.C, 1, e.s) \o e.N \o SubSeq(e.C, e.z + 1, Len(e.C))
JudgeRange(e) ==
  IF ~e.some THEN {}
  ELSE LET T == TLCEval(Splice(e))
           L == TLCEval(Lex(e.C))
           M == TLCEval(Lex(T))
       IN (IF 0 <= e.s /\ e.s <= e.ra /\ e.rz <= e.z /\ e.z <= Len(e.C) THEN {}
           ELSE {Diff("W05", "edited range", 0, <<e.s, e.z>>, <<e.ra, e.rz>>)})
          \cup (IF DiffersAt(e.C, L, T, M, FALSE) = 0 THEN {}
                ELSE {Diff("W05", "range formatting changed a token or comment", DiffersAt(e.C, L, T, M, FALSE), "", "")})
          \cup (IF e.stable /\ T # e.C THEN {Diff("W05", "range formatting changed formatted text", 0, e.text, "")} ELSE {})

Init == l = 1 /\ bad = 0
Report(m) == IF m = {} THEN UNCHANGED bad ELSE PrintT("@@" \o ToJson([l |-> l, m |-> m])) /\ bad' = bad + 1
FormatStep == Log[l].e = "format" /\ Report(JudgeFormat(Log[l]))
RangeStep == Log[l].e = "range" /\ Report(JudgeRange(Log[l]))
Crash == LET e == Log[l] IN
  e.e = "crash" /\ Report({Diff(e.p, "crash in " \o e.where, 0, e.msg, "an answer")})
Reset == Log[l].e = "reset" /\ UNCHANGED bad
Next == l <= Len(Log) /\ l' = l + 1 /\ (FormatStep \/ RangeStep \/ Crash \/ Reset)
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT("@!" \o ToJson([len |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                   generated |-> TLCGet("stats").generated]))
            /\ TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
