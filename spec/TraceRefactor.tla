----------------------------- MODULE TraceRefactor -----------------------------
(***************************************************************************)
(* Judges recorded code actions.  Events:                                  *)
(*  act : text C with nodes, the request ra..rz restricted to kinds of     *)
(*        action only ("" for all), offers [kind, es] (edits in order)     *)
(*  fix : text C, which differs from a well-formed text with the tokens    *)
(*        good in white space in one memory argument; must: the argument   *)
(*        is one of those that are repaired for certain                    *)
(***************************************************************************)
EXTENDS WatRefactor, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
View == l

Diff(p, what, t, got, want) == [p |-> p, what |-> what, t |-> t, got |-> ToString(got), want |-> ToString(want)]
SetOf(s) == {s[j] : j \in 1..Len(s)}
Show(w) == FoldLeft(LAMBDA acc, x : acc \o " " \o FoldLeft(LAMBDA s, c : s \o c, "", x), "", w)

Outcome(C, o) == LET T == TLCEval(Edited(C, o.es))  L == TLCEval(Lex(T)) IN [w |-> Words(T, L), c |-> Remarks(T, L)]
JudgeAct(e) ==
  LET L == TLCEval(Lex(e.C))
      T == TLCEval(Code(L))
      W == TLCEval(Words(e.C, L))
      R == TLCEval(Rewritings(e.nodes, W, T, e.ra, e.rz))
      wanted == e.only \in {"", "refactor.rewrite"}
      os == {j \in 1..Len(e.offers) : e.offers[j].kind # "quickfix"}
      res == TLCEval([j \in os |-> Outcome(e.C, e.offers[j])])
  IN {Diff("W14", "edits overlap or leave the text", j, e.offers[j].es, "") : j \in {j \in os : ~InOrder(e.offers[j].es, Len(e.C))}}
     \cup {Diff("W14", "quick fix of a text without errors", j, e.offers[j].es, "") : j \in (1..Len(e.offers)) \ os}
     \cup {Diff("W14", "offered a rewriting", j, Show(res[j].w), "") :
             j \in {j \in os : ~wanted \/ e.offers[j].kind # "refactor.rewrite" \/ res[j].w \notin R.may
                               \/ \E h \in os : h # j /\ res[h].w = res[j].w}}
     \cup {Diff("W14", "a rewriting changes comments", j, Show(res[j].c), Show(Remarks(e.C, L))) :
             j \in {j \in os : res[j].c # Remarks(e.C, L)}}
     \cup {Diff("W14", "a rewriting is missing", 0, "", Show(w)) : w \in {w \in R.must : wanted /\ \A j \in os : res[j].w # w}}

JudgeFix(e) ==
  LET fs == {j \in 1..Len(e.offers) : e.offers[j].kind = "quickfix"}
      ok(j) == /\ e.only \in {"", "quickfix"} /\ InOrder(e.offers[j].es, Len(e.C))
               /\ Outcome(e.C, e.offers[j]).w = e.good
  IN {Diff("W14", "quick fix", j, Show(Outcome(e.C, e.offers[j]).w), Show(e.good)) : j \in {j \in fs : ~ok(j)}}
     \cup (IF e.must /\ e.only \in {"", "quickfix"} /\ Cardinality(fs) # 1 THEN {Diff("W14", "quick fixes offered", 0, Cardinality(fs), 1)} ELSE {})

Init == l = 1 /\ bad = 0
Report(m) == IF m = {} THEN UNCHANGED bad ELSE PrintT("@@" \o ToJson([l |-> l, m |-> m])) /\ bad' = bad + 1
ActStep == Log[l].e = "act" /\ Report(JudgeAct(Log[l]))
FixStep == Log[l].e = "fix" /\ Report(JudgeFix(Log[l]))
Crash == LET e == Log[l] IN
  e.e = "crash" /\ Report({Diff(e.p, "crash in " \o e.where, 0, e.msg, "an answer")})
Reset == Log[l].e = "reset" /\ UNCHANGED bad
Next == l <= Len(Log) /\ l' = l + 1 /\ (ActStep \/ FixStep \/ Crash \/ Reset)
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT("@!" \o ToJson([len |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                   generated |-> TLCGet("stats").generated]))
            /\ TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
