------------------------------- MODULE WatShape -------------------------------
(***************************************************************************)
(* What an editor shows of the shape of a document: the class of every     *)
(* token, the outline, the regions that fold, and the ranges a selection   *)
(* grows through.  tk is the sequence of token kinds as they were written, *)
(* ln the line each token is on.                                           *)
(***************************************************************************)
EXTENDS WatScope, SequencesExt

(* Token classes.  A set of several classes means that the text leaves it  *)
(* open whether a name is shown as what it denotes or as a plain variable. *)
RefUses(A, t) == {x \in A.refs : x.r.t = t}
IsParam(A, t) == \E x \in RefUses(A, t) : x.d # {} /\ \A d \in x.d : d.sp = "local" /\ d.k = "param"
NodesNaming(N, t) == {i \in Ids(N) : N[i].nt = t}
CallSites == {"call", "return_call", "ref.func"}
IdClass(N, A, t) ==
  LET rs == RefUses(A, t)
      ns == NodesNaming(N, t)
  IN CASE \E i \in ns : N[i].k = "func" -> {"function"}
       [] \E i \in ns : N[i].k = "param" -> {"parameter"}
       [] \E i \in ns : N[i].k = "ifunc" -> {"function", "variable"}
       [] \E x \in rs : (N[x.r.node].k = "instr" /\ N[x.r.node].i \in CallSites) \/ N[x.r.node].k \in {"start", "xfunc"} -> {"function"}
       [] \E x \in rs : x.r.sp = "func" -> {"function", "variable"}
       [] IsParam(A, t) -> {"parameter"}
       [] \E x \in rs : x.r.sp = "local" /\ Cardinality(x.d) > 1 -> {"parameter", "variable"}
       [] OTHER -> {"variable"}
NumClass(N, A, t) ==
  LET rs == RefUses(A, t)
  IN CASE \E x \in rs : (N[x.r.node].k = "instr" /\ N[x.r.node].i \in CallSites) \/ N[x.r.node].k \in {"start", "xfunc"} -> {"function"}
       [] \E x \in rs : x.r.sp = "func" -> {"function", "number"}
       [] IsParam(A, t) -> {"parameter"}
       [] \E x \in rs : x.r.sp = "local" -> {"variable"}
       [] OTHER -> {"number"}
TokenClass(N, A, tk, t) ==
  CASE t > Len(tk) -> {"comment"}
    [] tk[t] = "kw" -> {"keyword"}
    [] tk[t] \in {"heap", "share"} -> {"keyword", "none"}     \* the tool leaves these plain
    [] tk[t] = "type" -> {"type"}
    [] tk[t] = "instr" -> {"operator"}
    [] tk[t] = "str" -> {"string"}
    [] tk[t] = "float" -> {"number"}
    [] tk[t] \in {"int", "uint"} -> NumClass(N, A, t)
    [] tk[t] = "id" -> IdClass(N, A, t)
    [] OTHER -> {}
-------------------------------------------------------------------------------
(* The outline: modules, their definitions, and the locals of functions.   *)
Display(d) == IF d.n # "" THEN d.n ELSE ToString(d.ix)
-------------------------------------------------------------------------------
(* Parenthesised groups: the token that closes each opening parenthesis.   *)
Groups(tk) ==
  LET Step(acc, t) ==
        CASE tk[t] = "lp" -> [acc EXCEPT !.st = <<t>> \o @]
          [] tk[t] = "rp" -> [acc EXCEPT !.st = Tail(@), !.g = @ \cup {<<Head(acc.st), t>>}]
          [] OTHER -> acc
  IN FoldLeft(Step, [st |-> <<>>, g |-> {}], [t \in 1..Len(tk) |-> t]).g

\* the (type ..) of a type use goes together with the parameters and results behind it
TypeUses(N) == {i \in Ids(N) : N[i].k = "typeuse" /\ N[i].kw # 0}
Units(N, tk) == {g \in Groups(tk) : ~ \E i \in TypeUses(N) : g[1] = N[i].a} \cup {<<N[i].a, N[i].z>> : i \in TypeUses(N)}

\* groups that are written without parentheses around them
Bare(N, tk) ==
  {<<N[i].a, N[i].z>> : i \in {i \in Ids(N) : \/ IsBlock(N[i].k) /\ ~N[i].f
                                              \/ N[i].k = "else" /\ tk[N[i].a] = "kw"
                                              \/ N[i].k = "elemlist" /\ N[i].a <= N[i].z /\ tk[N[i].a] = "kw"}}
Foldable(N, tk, ln) == {g \in Units(N, tk) \cup Bare(N, tk) : ln[g[1]] # ln[g[2]]}
===============================================================================
