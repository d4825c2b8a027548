------------------------------- MODULE TraceServer -----------------------------
(***************************************************************************)
(* Judges recorded conversations.  Events:                                 *)
(*  memo  : the answer a fresh service gives to question q about text t    *)
(*  in    : a message sent to the server (WatServer)                       *)
(*  out   : a message the server sent                                      *)
(*  ended : the server is gone; code is its exit code                      *)
(* and, for the library without the protocol around it:                    *)
(*  put   : document u was given text t                                    *)
(*  answer: the answer a to question q about document u                    *)
(* and, for what is announced:                                             *)
(*  offer : features announced (and how documents are synchronised, and    *)
(*          the kinds of code actions), the requests then sent, those of   *)
(*          them the server knows, and the kinds of code actions it gave   *)
(***************************************************************************)
EXTENDS WatServer, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, memo, bad
View == l
E == Log[l]

Report(m) == IF m = {} THEN UNCHANGED bad ELSE PrintT("@@" \o ToJson([l |-> l, m |-> m])) /\ bad' = bad + 1
Diff(p, what, got, want) == [p |-> p, what |-> what, t |-> 0, got |-> ToString(got), want |-> ToString(want)]

Reset == E.e = "reset" /\ s' = Start /\ memo' = <<>> /\ UNCHANGED bad
Memo == E.e = "memo" /\ memo' = With(memo, <<E.t, E.q>>, E.a) /\ UNCHANGED <<s, bad>>

In == E.e = "in" /\ s' = Reply(s, E.m) /\ UNCHANGED <<memo, bad>>

\* does message o fulfil the obligation w?
Fulfils(o, w) ==
  CASE w.k = "publish" -> o.k = "publish" /\ o.u = w.u /\ o.a = (IF w.q = "nothing" THEN "[]" ELSE memo[<<w.t, w.q>>])
    [] w.k = "result" -> o.k \in {"result", "error"} /\ o.id = w.id /\ o.a = memo[<<w.t, w.q>>]
    [] w.k = "error" -> o.k = "error" /\ o.id = w.id
    [] w.k = "either" -> o.k \in {"result", "error"} /\ o.id = w.id
Out == /\ E.e = "out"
       /\ IF s.owed = <<>> THEN Report({Diff(E.p, "sent without cause", E, "nothing")}) /\ UNCHANGED s
          ELSE /\ s' = [s EXCEPT !.owed = Tail(@)]
               /\ Report(IF Fulfils(E, Head(s.owed)) THEN {} ELSE {Diff(E.p, "sent", E, Head(s.owed))})
       /\ UNCHANGED memo
Ended == /\ E.e = "ended"
         /\ Report((IF s.owed = <<>> THEN {} ELSE {Diff(E.p, "never sent", "", Head(s.owed))})
                   \cup (IF s.phase = "down" /\ E.code = 0 THEN {} ELSE {Diff(E.p, "ended", E.code, s.phase)}))
         /\ s' = [s EXCEPT !.owed = <<>>] /\ UNCHANGED memo

PutText == E.e = "put" /\ s' = Put(s, E.u, E.t) /\ UNCHANGED <<memo, bad>>
Answer == /\ E.e = "answer"
          /\ LET want == memo[<<s.docs[E.u], E.q>>]
             IN Report(IF E.a = want THEN {} ELSE {Diff(E.p, E.q, E.a, want)})
          /\ UNCHANGED <<s, memo>>

Set(q) == {q[i] : i \in 1..Len(q)}
Offer == /\ E.e = "offer"
         /\ LET f == Set(E.features)  known == Set(E.known)
            IN Report({Diff(E.p, m, IF m \in known THEN "answered" ELSE "unknown",
                            IF Announces(f, m) THEN "announced" ELSE "not announced")
                         : m \in {x \in Set(E.asked) : (x \in known) # Announces(f, x)}}
                      \cup (IF E.sync = AnnouncedSync THEN {} ELSE {Diff(E.p, "textDocumentSync", E.sync, AnnouncedSync)})
                      \cup {Diff(E.p, "code action", k, E.kinds) : k \in Set(E.given) \ Set(E.kinds)}
                      \cup {Diff(E.p, "legend", t, E.types) : t \in Set(E.legend) \ Set(E.types)})
         /\ UNCHANGED <<s, memo>>

Init == l = 1 /\ s = Start /\ memo = <<>> /\ bad = 0
Next == l <= Len(Log) /\ l' = l + 1 /\ (Reset \/ Memo \/ In \/ Out \/ Ended \/ PutText \/ Answer \/ Offer)
Spec == Init /\ [][Next]_<<l, s, memo, bad>>
Accepted == PrintT("@!" \o ToJson([len |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                   generated |-> TLCGet("stats").generated]))
            /\ TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
