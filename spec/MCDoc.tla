-------------------------------- MODULE MCDoc ---------------------------------
(***************************************************************************)
(* All small documents of four families, built word by word.  TLC visits   *)
(* every one of them and prints it; lib/small.py writes it as text for the *)
(* real code, whose answers are then judged by Trace.tla.                  *)
(*   label   nested blocks, loops and ifs (folded and flat) and branches   *)
(*   field   module fields, named or not, and uses of them                 *)
(*   local   parameters, locals and type uses of a function, and uses      *)
(*   type    instruction sequences, folded and flat                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES w, st
Family == IOEnv.FAMILY
Max == atoi(IOEnv.LENGTH)

Top == st[Len(st)]
Pushed(x) == Append(st, x)
Popped == SubSeq(st, 1, Len(st) - 1)
Turned(x) == Append(Popped, x)
In(kinds) == st # <<>> /\ Top \in kinds
Word(k, v) == <<k, v>>
Last == w[Len(w)][1]
Had(k) == \E i \in 1..Len(w) : w[i][1] = k

\* each step: [w: the word, s: the stack afterwards]
Step(k, v, s) == [w |-> Word(k, v), s |-> s]
\* the clauses of an if must come; a closed construct takes one word each
Due(s) == Len(s) + (IF \E i \in 1..Len(s) : s[i] = "cond" THEN 1 ELSE 0)

LabelSteps ==
  {Step(k, v, Pushed("body")) : k \in {"(block", "block", "loop"}, v \in {"$a", ""}}
  \cup {Step("(if", v, Pushed("cond")) : v \in {"$a", ""}}
  \cup {Step("if", v, Pushed("flat")) : v \in {"$a", ""}}
  \cup {Step("br", v, st) : v \in {"$a", "0", "1"}}
  \cup (IF In({"cond"}) THEN {Step("(then", "", Turned("then"))} ELSE {})
  \cup (IF In({"then"}) THEN {Step("(else", "", Turned("body"))} ELSE {})
  \cup (IF In({"flat"}) THEN {Step("else", "", Turned("body"))} ELSE {})
  \cup (IF In({"body", "then", "flat"}) THEN {Step(")", "", Popped)} ELSE {})

FieldSteps ==
  {Step(k, v, st) : k \in {"func", "global", "type", "table", "memory", "import"}, v \in {"$a", ""}}
  \cup {Step(k, v, st) : k \in {"call", "global.get", "(type", "table.size", "export"}, v \in {"$a", "0", "1"}}
  \cup (IF w # <<>> /\ Last # "module" /\ ~Had("module") THEN {Step("module", "", st)} ELSE {})

LocalSteps ==
  (IF w = <<>> THEN {Step("sig", v, st) : v \in {"0", "1", "2", "x"}} ELSE {})
  \cup (IF ~Had("local") /\ ~Had("local.get") THEN {Step("param", v, st) : v \in {"$a", "1", "2"}} ELSE {})
  \cup (IF ~Had("local.get") THEN {Step("local", v, st) : v \in {"$a", "1", "2"}} ELSE {})
  \cup {Step("local.get", v, st) : v \in {"$a", "$b", "0", "1", "2", "3"}}

TypeSteps ==
  {Step("flat", v, st) : v \in {"i32.const", "i64.const", "i32.add", "i64.eqz", "drop", "unreachable", "call", "local.get", "br_if"}}
  \cup {Step("(", v, Pushed("f")) : v \in {"i32.const", "i32.add", "drop", "call", "br"}}
  \cup (IF In({"f"}) THEN {} ELSE {Step("block", v, Pushed("b")) : v \in {"", "i32"}})
  \cup (IF st # <<>> THEN {Step(")", "", Popped)} ELSE {})

Steps == CASE Family = "label" -> LabelSteps [] Family = "field" -> FieldSteps
           [] Family = "local" -> LocalSteps [] Family = "type" -> TypeSteps
Fits(x) == /\ Len(w) + 1 + Due(x.s) <= Max
           \* a constant has nothing in its parentheses, and folded instructions only folded ones
           /\ ~(Family = "type" /\ In({"f"}) /\ (x.w[1] \in {"flat", "block"} \/ (x.w[1] = "(" /\ w[Len(w)] = Word("(", "i32.const"))))

Init == w = <<>> /\ st = <<>>
Next == \E x \in Steps : Fits(x) /\ w' = Append(w, x.w) /\ st' = x.s
Spec == Init /\ [][Next]_<<w, st>>

\* worth asking about: something is used
Uses == CASE Family = "label" -> Had("br")
          [] Family = "field" -> \E k \in {"call", "global.get", "(type", "table.size", "export"} : Had(k)
          [] Family = "local" -> Had("local.get")
          [] OTHER -> TRUE
Emit == (w # <<>> /\ st = <<>> /\ Uses) => PrintT("@D" \o ToJson(w))
===============================================================================
