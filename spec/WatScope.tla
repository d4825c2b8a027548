------------------------------- MODULE WatScope -------------------------------
(***************************************************************************)
(* Names and index spaces of the WebAssembly text format: what is defined, *)
(* what refers, and what each reference denotes.  Everything the tool says *)
(* about names (definition, references, rename, undefined and duplicate    *)
(* names, call hierarchy, completion) is judged against this module.       *)
(***************************************************************************)
EXTENDS WatDoc

FieldSpace(k) ==
  CASE k \in {"func", "ifunc"} -> "func"
    [] k = "type" -> "type"
    [] k \in {"global", "iglobal"} -> "global"
    [] k \in {"memory", "imemory"} -> "memory"
    [] k \in {"table", "itable"} -> "table"
    [] OTHER -> ""

Spaces == {"func", "type", "global", "memory", "table", "local", "label"}

\* the enclosing module / function of every node (0 if none)
Within(N, anc, i, kind) ==
  IF N[i].k = kind THEN i ELSE FirstWith(anc[i], LAMBDA j : N[j].k = kind)

-------------------------------------------------------------------------------
(* Labels.  The instructions of a block see its label; the condition       *)
(* operands of a folded `if' are outside it.                               *)
RECURSIVE LabelScope(_, _)
LabelScope(N, i) ==          \* the enclosing blocks whose labels are visible at i, innermost first
  LET p == N[i].p
  IN IF p = 0 THEN <<>>
     ELSE IF IsBlock(N[p].k) /\ ~ (N[p].k = "if" /\ N[i].k \notin {"then", "else"})
     THEN <<p>> \o LabelScope(N, p) ELSE LabelScope(N, p)

-------------------------------------------------------------------------------
(* Definitions: [sp, sc, ix, n, at, nt, node, own, k, vis].                *)
(* Deviation, kept because the repository's own tests fix it: the standard *)
(* numbers every index space separately (PerSpace), the tool numbers all   *)
(* fields of a module in one sequence (finding F1 in known_findings.json). *)
CONSTANTS PerSpace, FunctionLabels
FieldDefs(N, anc) ==
  LET flds == {i \in Ids(N) : FieldSpace(N[i].k) # ""}
      mod == [i \in flds |-> Within(N, anc, i, "module")]
  IN {[sp |-> FieldSpace(N[i].k), sc |-> mod[i],
       ix |-> Cardinality({j \in flds : j < i /\ mod[j] = mod[i]
                                     /\ (PerSpace => FieldSpace(N[j].k) = FieldSpace(N[i].k))}),
       n |-> N[i].n, nt |-> N[i].nt, node |-> i, own |-> TRUE, k |-> N[i].k, vis |-> {},
       at |-> IF N[i].nt # 0 THEN N[i].nt ELSE N[i].kw] : i \in flds}

\* the entries a (param ..) / (local ..) group contributes, in order
GroupEntries(N, g) ==
  IF N[g].n # "" THEN <<[n |-> N[g].n, nt |-> N[g].nt, at |-> N[g].nt, node |-> g,
                         own |-> TRUE, k |-> N[g].k]>>
  ELSE [j \in 1..Len(N[g].ty) |-> [n |-> "", nt |-> 0, at |-> N[g].ty[j].t, node |-> g,
                                   own |-> TRUE, k |-> N[g].k]]
EntriesOf(N, groups) == Flatten([j \in 1..Len(groups) |-> GroupEntries(N, groups[j])])

IndexDenotes(op, d) == IF op.k = "id" THEN d.n # "" /\ d.n = op.v ELSE d.ix = op.n

\* the type definitions an index in a type use denotes
TypeUseTargets(N, anc, fdefs, tu) ==
  IF N[tu].op = <<>> THEN {}
  ELSE {d \in fdefs : d.sp = "type" /\ d.sc = Within(N, anc, tu, "module")
                      /\ IndexDenotes(N[tu].op[1], d)}

\* parameters of a type use: written in place, or taken over from the type it names
TypeUseParams(N, anc, fdefs, tu) ==
  LET here == KidsOf(N, tu, {"param"})
      written == KidsOf(N, tu, {"param", "result"}) # <<>>
      tgt == TypeUseTargets(N, anc, fdefs, tu)
  IN IF written \/ tgt = {} THEN EntriesOf(N, here)
     ELSE LET d == CHOOSE x \in tgt : \A y \in tgt : x.ix <= y.ix
              ft == KidsOf(N, d.node, {"functype"})[1]
              es == Flatten([j \in 1..Len(KidsOf(N, ft, {"param"})) |->
                               N[KidsOf(N, ft, {"param"})[j]].ty])
          IN [j \in 1..Len(es) |-> [n |-> "", nt |-> 0, at |-> es[j].t, node |-> d.node,
                                    own |-> FALSE, k |-> "param"]]

LocalDefs(N, anc, fdefs) ==
  UNION {LET tus == KidsOf(N, f, {"typeuse"})
             ps == IF tus = <<>> THEN <<>> ELSE TypeUseParams(N, anc, fdefs, tus[1])
             es == ps \o EntriesOf(N, KidsOf(N, f, {"local"}))
         IN {[sp |-> "local", sc |-> f, ix |-> j - 1, n |-> es[j].n, nt |-> es[j].nt,
              node |-> es[j].node, at |-> es[j].at, own |-> es[j].own, k |-> es[j].k,
              vis |-> {}]
              : j \in 1..Len(es)}
         : f \in {i \in Ids(N) : N[i].k = "func"}}

LabelDefs(N) ==
  {[sp |-> "label", sc |-> i, ix |-> 0, n |-> N[i].n, nt |-> N[i].nt, node |-> i,
    own |-> TRUE, k |-> N[i].k,
    at |-> IF N[i].nt # 0 THEN N[i].nt ELSE N[i].kw, vis |-> SeqToSet(LabelScope(N, i))]
    : i \in {j \in Ids(N) : IsBlock(N[j].k)}}

-------------------------------------------------------------------------------
(* References: the operands that are indices, and the space each lives in. *)
InstrSpace(i, pos) ==
  CASE i \in {"call", "return_call", "ref.func"} -> IF pos = 1 THEN "func" ELSE ""
    [] i \in {"local.get", "local.set", "local.tee"} -> IF pos = 1 THEN "local" ELSE ""
    [] i \in {"global.get", "global.set"} -> IF pos = 1 THEN "global" ELSE ""
    [] i \in {"br", "br_if"} -> IF pos = 1 THEN "label" ELSE ""
    [] i = "br_table" -> "label"
    [] i \in {"table.get", "table.set", "table.size", "table.grow", "table.fill"} ->
         IF pos = 1 THEN "table" ELSE ""
    [] i = "table.copy" -> IF pos <= 2 THEN "table" ELSE ""
    [] i = "table.init" -> IF pos = 1 THEN "table" ELSE ""
    [] i = "call_indirect" -> IF pos = 1 THEN "table" ELSE ""
    [] OTHER -> ""

NodeSpace(k) ==
  CASE k \in {"xfunc", "start", "elemlist", "inlelem"} -> "func"
    [] k = "xglobal" -> "global"
    [] k \in {"xmemory", "memuse"} -> "memory"
    [] k \in {"xtable", "tableuse"} -> "table"
    [] k = "typeuse" -> "type"
    [] OTHER -> ""

OpSpace(nd, pos) == IF nd.k = "instr" THEN InstrSpace(nd.i, pos) ELSE NodeSpace(nd.k)

Refs(N) ==
  UNION {{[sp |-> OpSpace(N[i], j), t |-> N[i].op[j].t, node |-> i, pos |-> j, op |-> N[i].op[j]]
            : j \in {j \in 1..Len(N[i].op) : N[i].op[j].k \in {"id", "int"} /\ OpSpace(N[i], j) # ""}}
         : i \in Ids(N)}

\* the definitions a reference denotes: normally one; several only when a name is defined twice
Denotes(N, anc, fdefs, ldefs, bdefs, r) ==
  CASE r.sp = "label" ->
         LET enc == LabelScope(N, r.node)
             hits == {j \in 1..Len(enc) :
                        IF r.op.k = "id" THEN N[enc[j]].n = r.op.v ELSE j - 1 = r.op.n}
         IN IF hits = {} THEN {}
            ELSE LET b == enc[CHOOSE j \in hits : \A h \in hits : j <= h]
                 IN {d \in bdefs : d.node = b}
    [] r.sp = "local" ->
         {d \in ldefs : d.sc = Within(N, anc, r.node, "func") /\ IndexDenotes(r.op, d)}
    [] OTHER ->
         {d \in fdefs : d.sp = r.sp /\ d.sc = Within(N, anc, r.node, "module")
                        /\ IndexDenotes(r.op, d)}

\* `br n' with n = the number of enclosing blocks targets the function itself
TargetsFunction(N, anc, r) ==
  r.sp = "label" /\ r.op.k = "int" /\ r.op.n = Len(LabelScope(N, r.node))

(* The name analysis of a document, computed once per committed text.      *)
Analyse(N) ==
  LET anc == TLCEval(Ancestors(N))
      fdefs == TLCEval(FieldDefs(N, anc))
      ldefs == TLCEval(LocalDefs(N, anc, fdefs))
      bdefs == TLCEval(LabelDefs(N))
      refs == TLCEval({[r |-> r, d |-> Denotes(N, anc, fdefs, ldefs, bdefs, r),
                        fn |-> TargetsFunction(N, anc, r),
                        loose |-> r.sp = "label" /\ r.op.k = "int" /\ LabelScope(N, r.node) = <<>>] : r \in Refs(N)})
  IN [anc |-> anc, fields |-> fdefs, locals |-> ldefs, labels |-> bdefs, refs |-> refs]

-------------------------------------------------------------------------------
(* Judgements                                                              *)

\* definitions the user can see in the text of this document (not the parameters a function takes
\* over from a type)
OwnDefs(A) == A.fields \cup {d \in A.locals : d.own} \cup A.labels

\* Deviations fixed by the repository's tests: a numeric branch target outside every block is not
\* resolved at all, so it is never reported; inside a block, the number that targets the function
\* itself is reported unless FunctionLabels (finding F2).
Undefined(A) == {x.r.t : x \in {x \in A.refs : x.d = {} /\ ~(FunctionLabels /\ x.fn) /\ ~x.loose}}

Rivals(A, d) ==       \* the other definitions of d's name in d's scope
  IF d.n = "" THEN {}
  ELSE CASE d.sp = "label" -> {e \in A.labels : e.n = d.n /\ (e.node \in d.vis \/ d.node \in e.vis)}
         [] d.sp = "local" -> {e \in A.locals : e.own /\ e.sc = d.sc /\ e.n = d.n /\ e.at # d.at}
         [] OTHER -> {e \in A.fields : e.sc = d.sc /\ e.n = d.n /\ e.at # d.at}

\* identifiers that are defined more than once in one scope, each with its rivals.  The tool puts all
\* module fields in one scope, and takes a label that shadows an enclosing one for a duplicate.
Duplicated(A) ==
  {[t |-> d.nt, rel |-> {e.nt : e \in Rivals(A, d)}] : d \in {d \in OwnDefs(A) : Rivals(A, d) # {}}}

\* a definition no other one can be confused with
Unambiguous(A, d) ==
  d.n = "" \/ ~ \E e \in A.fields \cup A.locals : e.sp = d.sp /\ e.sc = d.sc /\ e.n = d.n /\ e.at # d.at

RefsTo(A, at) == {x.r.t : x \in {x \in A.refs : \E d \in x.d : d.at = at}}
NamedRefsTo(A, at) == {x.r.t : x \in {x \in A.refs : x.r.op.k = "id" /\ \E d \in x.d : d.at = at}}
===============================================================================
