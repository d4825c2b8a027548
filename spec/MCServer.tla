------------------------------- MODULE MCServer --------------------------------
(***************************************************************************)
(* All conversations of bounded length (breadth-first), or random longer   *)
(* ones (simulation).  Each finished conversation is printed, to be played *)
(* to the real server.                                                     *)
(***************************************************************************)
EXTENDS WatServer, Json, IOUtils, FiniteSets
CONSTANTS Uris, Texts, Questions, Kinds
VARIABLES s, hist
N == atoi(IOEnv.LENGTH)

Messages(id) ==
  [k : {"open"}, u : Uris, t : Texts] \cup [k : {"change"}, u : Uris, ts : {<<t>> : t \in Texts}]
  \cup [k : {"change"}, u : Uris, ts : {<<t, v>> : t \in Texts, v \in Texts} \cup {<<>>}]
  \cup [k : {"close"}, u : Uris] \cup [k : {"ask"}, id : {id}, u : Uris, q : Questions]
  \cup [k : {"malformed", "unknown"}, id : {id}, q : Questions] \cup [k : {"note", "badnote", "response"}, q : Questions]

Init == \E pull \in BOOLEAN : LET m == [k |-> "initialize", id |-> 1, pull |-> pull] IN s = Reply(Start, m) /\ hist = <<m>>
Next == /\ Len(hist) < N
        /\ \E m \in Messages(Len(hist) + 1) :
             /\ m.k \in Kinds /\ Legal(s, m)
             /\ s' = Reply(s, m) /\ hist' = Append(hist, m)
Spec == Init /\ [][Next]_<<s, hist>>

Asked == {hist[i].id : i \in {i \in 1..Len(hist) : hist[i].k \in {"initialize", "ask", "malformed", "unknown", "shutdown"}}}
Answers == SelectSeq(s.owed, LAMBDA o : o.k # "publish")
\* every request is answered exactly once, in the order of the requests
AnsweredOnce == /\ {Answers[i].id : i \in 1..Len(Answers)} = Asked
                /\ \A i \in 1..Len(Answers) - 1 : Answers[i].id < Answers[i + 1].id
\* the last text published for an open document is its current one; a closed one is cleared
LastPublished(u) == LET P == SelectSeq(s.owed, LAMBDA o : o.k = "publish" /\ o.u = u) IN P[Len(P)]
Fresh == s.push => \A u \in DOMAIN s.docs :
           IF u \in s.open THEN LastPublished(u) = Publish(u, s.docs[u]) ELSE LastPublished(u) = Clear(u)
Current == \A i \in 1..Len(s.owed) : s.owed[i].k = "result" =>
             \E n \in 1..Len(hist) : hist[n].k = "ask" /\ hist[n].id = s.owed[i].id /\ hist[n].u = s.owed[i].u
Emit == Len(hist) = N => PrintT("@H" \o ToJson(hist))
Inv == AnsweredOnce /\ Fresh /\ Current
===============================================================================
