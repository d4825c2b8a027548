-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  TRACE (environment) names an ndjson file recorded    *)
(* from the real code; every line is one step of the document store:       *)
(*   commit : a client commits a new text for a document                   *)
(*   answer : the service's answers about a document, after that history   *)
(* The state is the text (abstract syntax and its analysis) current for    *)
(* each document.  Disagreements are collected, not stopped at.            *)
(***************************************************************************)
EXTENDS TraceScope, TraceTypes, TraceShape, TraceInfo, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, docs, bad

View == l

Init == l = 1 /\ docs = <<>> /\ bad = 0

Has(e, f) == f \in DOMAIN e

Commit == LET e == Log[l] IN
  /\ e.e = "commit"
  /\ docs' = (e.u :> [nodes |-> e.nodes, A |-> Analyse(e.nodes)]) @@ docs
  /\ UNCHANGED bad

Judge(e) ==
  LET N == docs[e.u].nodes
      A == docs[e.u].A
  IN (IF Has(e, "def") THEN JudgeDef(N, A, e) ELSE {})
     \cup (IF Has(e, "refs") THEN JudgeRefs(N, A, e) ELSE {})
     \cup (IF Has(e, "ren") THEN JudgeRename(N, A, e) \cup JudgeReady(e) ELSE {})
     \cup (IF Has(e, "kin") THEN JudgeKin(N, A, e) ELSE {})
     \cup (IF Has(e, "undef") THEN JudgeUndef(N, A, e) ELSE {})
     \cup (IF Has(e, "dup") THEN JudgeDup(N, A, e) ELSE {})
     \cup (IF Has(e, "literal") THEN JudgeLiterals(N, A, e) ELSE {})
     \cup (IF Has(e, "sem") THEN JudgeSemantic(N, A, e) ELSE {})
     \cup (IF Has(e, "outline") THEN JudgeOutline(N, A, e) ELSE {})
     \cup (IF Has(e, "fold") THEN JudgeFolding(N, e) ELSE {})
     \cup (IF Has(e, "sel") THEN JudgeSelection(N, e) ELSE {})
     \cup (IF Has(e, "hover") THEN JudgeHover(N, A, e) ELSE {})
     \cup (IF Has(e, "prep") THEN JudgeCalls(N, A, e) ELSE {})
     \cup (IF Has(e, "hints") THEN JudgeHints(N, A, e) ELSE {})
     \cup (IF Has(e, "compl") THEN JudgeCompletion(N, A, e) ELSE {})
     \cup (IF Has(e, "words") THEN JudgeWords(N, e) ELSE {})
     \cup (IF Has(e, "types") THEN JudgeTypes(N, A, e) ELSE {})

Answer == LET e == Log[l] IN
  /\ e.e = "answer"
  /\ LET m == Judge(e) IN
       IF m = {} THEN UNCHANGED bad
       ELSE PrintT("@@" \o ToJson([l |-> l, m |-> m])) /\ bad' = bad + 1
  /\ UNCHANGED docs

\* the specification has no step in which a request kills the service
Crash == LET e == Log[l] IN
  /\ e.e = "crash"
  /\ PrintT("@@" \o ToJson([l |-> l, m |-> {Diff(e.p, "crash in " \o e.where, 0, e.msg, "an answer")}]))
  /\ bad' = bad + 1
  /\ UNCHANGED docs

Reset == Log[l].e = "reset" /\ docs' = <<>> /\ UNCHANGED bad

Next == l <= Len(Log) /\ l' = l + 1 /\ (Commit \/ Answer \/ Crash \/ Reset)
Spec == Init /\ [][Next]_<<l, docs, bad>>

Accepted == PrintT("@!" \o ToJson([len |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                   generated |-> TLCGet("stats").generated]))
            /\ TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
