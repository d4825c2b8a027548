------------------------------ MODULE TraceBounds ------------------------------
(***************************************************************************)
(* Every answer is about the document: whatever the text and the question, *)
(* the service answers, and what it answers lies inside the text.          *)
(*  text   : widths[i] is the length of line i - 1 in UTF-16 code units,   *)
(*           cuts the positions [l, c] in the middle of a character        *)
(*  answer : q the question; alive: there was an answer; rs: the ranges    *)
(*           <<l, c, l2, c2>> in it; nest: pairs of an inner and an outer  *)
(*           range; edits: the ranges of the edits of one change;          *)
(*           types: number of token types, toks: <<line delta, column      *)
(*           delta, length, type>>; rows: folded lines; foreign: the       *)
(*           answer names another document                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, text, bad
View == l

Diff(p, what, got, want) == [p |-> p, what |-> what, t |-> 0, got |-> ToString(got), want |-> ToString(want)]
SetOf(s) == {s[j] : j \in 1..Len(s)}

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Place(p) == p[1] < Len(text.widths) /\ p[2] <= text.widths[p[1] + 1] /\ p \notin text.cuts
From(r) == <<r[1], r[2]>>
To(r) == <<r[3], r[4]>>
Inside(r) == Place(From(r)) /\ Place(To(r)) /\ Before(From(r), To(r))
Holds(outer, inner) == Before(From(outer), From(inner)) /\ Before(To(inner), To(outer))
Disjoint(a, b) == Before(To(a), From(b)) \/ Before(To(b), From(a))

\* the tokens in order, each after the end of the one before, as far as both lie in one line
RECURSIVE Walk(_, _, _, _)
Walk(toks, j, at, end) ==
  IF j > Len(toks) THEN TRUE
  ELSE LET t == toks[j]
           p == IF t[1] = 0 THEN <<at[1], at[2] + t[2]>> ELSE <<at[1] + t[1], t[2]>>
       IN /\ Place(p) /\ t[3] > 0
          /\ (j > 1 /\ t[1] = 0 => p[2] >= end)
          /\ Walk(toks, j + 1, p, p[2] + t[3])

Judge(e) ==
  IF ~e.alive THEN {Diff("W24", "no answer to " \o e.q, e.why, "an answer")}
  ELSE {Diff("W24", "range outside the text in " \o e.q, r, text.widths) : r \in {r \in SetOf(e.rs) : ~Inside(r)}}
       \cup {Diff("W24", "inner range not inside the outer in " \o e.q, x, "") : x \in {x \in SetOf(e.nest) : ~Holds(x[2], x[1])}}
       \cup {Diff("W24", "overlapping edits in " \o e.q, es, "") :
               es \in {es \in SetOf(e.edits) : \E j, h \in 1..Len(es) : j < h /\ ~Disjoint(es[j], es[h])}}
       \cup {Diff("W24", "folded lines in " \o e.q, r, "") : r \in {r \in SetOf(e.rows) : ~(r[1] <= r[2] /\ r[2] < Len(text.widths))}}
       \cup (IF \A j \in 1..Len(e.toks) : e.toks[j][4] < e.types THEN {} ELSE {Diff("W24", "unknown token type", e.toks, e.types)})
       \cup (IF e.loose \/ Walk(e.toks, 1, <<0, 0>>, 0) THEN {} ELSE {Diff("W24", "tokens out of order or outside the text", e.toks, text.widths)})
       \cup (IF e.foreign THEN {Diff("W24", "another document in " \o e.q, "", "")} ELSE {})

Init == l = 1 /\ text = <<>> /\ bad = 0
Text == Log[l].e = "text" /\ text' = [widths |-> Log[l].widths, cuts |-> SetOf(Log[l].cuts)] /\ UNCHANGED bad
Answer == /\ Log[l].e = "answer"
          /\ LET m == Judge(Log[l]) IN IF m = {} THEN UNCHANGED bad ELSE PrintT("@@" \o ToJson([l |-> l, m |-> m])) /\ bad' = bad + 1
          /\ UNCHANGED text
Reset == Log[l].e = "reset" /\ UNCHANGED <<text, bad>>
Next == l <= Len(Log) /\ l' = l + 1 /\ (Text \/ Answer \/ Reset)
Spec == Init /\ [][Next]_<<l, text, bad>>
Accepted == PrintT("@!" \o ToJson([len |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                   generated |-> TLCGet("stats").generated]))
            /\ TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
