-------------------------------- MODULE WatInfo --------------------------------
(***************************************************************************)
(* What an editor tells about a definition: the text that describes it     *)
(* (hover), who calls it and what it calls (call hierarchy), and the       *)
(* annotations beside references and functions (inlay hints).              *)
(***************************************************************************)
EXTENDS WatTypes

C == INSTANCE WasmCode
Opcode == TLCEval(C!Opcode)

Spaced(ss) == FoldLeft(LAMBDA acc, s : IF s = "" THEN acc ELSE IF acc = "" THEN s ELSE acc \o " " \o s, "", ss)
Par(ss) == "(" \o Spaced(ss) \o ")"

\* one clause for every parameter and result of a type use or function type, parameters first
Signature(N, i) ==
  LET of(k) == FlattenSeq([g \in 1..Len(N[i].c) |->
                 LET nd == N[N[i].c[g]] IN
                 IF nd.k # k THEN <<>> ELSE [j \in 1..Len(nd.ty) |-> Par(<<k, nd.n, nd.ty[j].v>>)]])
  IN of("param") \o of("result")

\* [ok, v]: the description of a definition, unless it depends on a name with several definitions
FuncHeader(N, A, d) ==
  LET tus == KidsOf(N, d.node, {"typeuse"})
      say(i) == [ok |-> TRUE, v |-> Par(<<"func", d.n>> \o Signature(N, i))]
      bare == [ok |-> TRUE, v |-> Par(<<"func", d.n>>)]
  IN IF tus = <<>> THEN bare
     ELSE IF KidsOf(N, tus[1], {"param", "result"}) # <<>> \/ N[tus[1]].op = <<>> THEN say(tus[1])
     ELSE LET tgt == TypeUseTargets(N, A.anc, A.fields, tus[1]) IN
          IF tgt = {} THEN bare
          ELSE IF Cardinality(tgt) > 1 THEN [ok |-> FALSE, v |-> ""]
          ELSE say(KidsOf(N, (CHOOSE x \in tgt : TRUE).node, {"functype"})[1])
TypeText(N, d) == Par(<<"type", d.n, Par(<<"func">> \o Signature(N, KidsOf(N, d.node, {"functype"})[1]))>>)
GlobalText(N, d) ==
  LET gt == N[KidsOf(N, d.node, {"globaltype"})[1]]
  IN Par(<<"global", d.n, IF gt.a # gt.z THEN Par(<<"mut", gt.ty[1].v>>) ELSE gt.ty[1].v>>)
LocalText(N, d) == Par(<<d.k, d.n, LocalType(N, d)>>)

(* Documentation: the lines that begin with ;;; in front of a function,    *)
(* as far as only line comments lie between; text[t] are the comments in   *)
(* front of token t.                                                       *)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
DocLine(s) ==
  LET r == SubSeq(s, 4, Len(s))
  IN IF r # "" /\ SubSeq(r, 1, 1) \in {" ", "\t"} THEN SubSeq(r, 2, Len(r)) ELSE r
DocOf(cs) ==
  LET n == Len(cs)
      blocks == {j \in 1..n : ~Starts(cs[j], ";;")}
      lo == IF blocks = {} THEN 1 ELSE (CHOOSE j \in blocks : \A h \in blocks : h <= j) + 1
      docs == {j \in lo..n : Starts(cs[j], ";;;")}
      hi == CHOOSE j \in docs : \A h \in docs : h <= j
      from == CHOOSE j \in docs : (\A h \in j..hi : h \in docs) /\ j - 1 \notin docs
  IN IF docs = {} THEN <<>> ELSE [j \in 1..hi - from + 1 |-> DocLine(cs[from + j - 1])]
TrimEnd(ls) ==          \* without empty lines at the end, which may be left out
  LET full == {j \in 1..Len(ls) : ls[j] # ""}
  IN IF full = {} THEN <<>> ELSE SubSeq(ls, 1, CHOOSE j \in full : \A h \in full : h <= j)
Lines(ls) == IF ls = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, s : acc \o "\n" \o s, ls[1], Tail(ls))

None == [ok |-> TRUE, has |-> FALSE, code |-> "", rest |-> {}]
Open == [None EXCEPT !.ok = FALSE]
Says(code, rest) == [ok |-> TRUE, has |-> TRUE, code |-> code, rest |-> rest]
Describe(N, A, before, d) ==
  CASE d.sp = "local" -> Says(LocalText(N, d), {""})
    [] d.sp = "type" -> Says(TypeText(N, d), {""})
    [] d.sp = "global" -> Says(GlobalText(N, d), {""})
    [] d.sp = "func" ->
         LET h == FuncHeader(N, A, d)
             doc == DocOf(before[N[d.node].a])
         IN IF ~h.ok THEN Open
            ELSE Says(h.v, {IF Lines(ls) = "" THEN "" ELSE "\n---\n" \o Lines(ls) : ls \in {doc, TrimEnd(doc)}})
    [] OTHER -> None
RefHover == {"func", "type", "global", "local"}

\* what hovering over token t says
HoverAt(N, A, tk, word, before, t) ==
  CASE tk[t] \in {"id", "int", "uint"} ->
         LET rs == {x \in A.refs : x.r.t = t}
             own == {d \in OwnDefs(A) : d.nt = t}
         IN IF rs # {}
            THEN LET x == CHOOSE x \in rs : TRUE IN
                 IF x.r.sp \notin RefHover \/ x.d = {} THEN None
                 ELSE IF Cardinality(x.d) > 1 THEN Open
                 ELSE Describe(N, A, before, CHOOSE d \in x.d : TRUE)
            ELSE IF own # {} THEN Describe(N, A, before, CHOOSE d \in own : TRUE)
            ELSE None
    [] tk[t] = "kw" ->
         LET own == {d \in A.fields : N[d.node].kw = t} \cup {d \in A.locals : d.own /\ d.n # "" /\ N[d.node].kw = t}
         IN IF own = {} THEN None ELSE Describe(N, A, before, CHOOSE d \in own : TRUE)
    [] tk[t] = "type" -> Says(word[t], {"doc"})
    [] tk[t] = "instr" -> IF word[t] \in DOMAIN Opcode THEN Says(word[t], {"\nBinary Opcode: " \o Opcode[word[t]]}) ELSE None
    [] OTHER -> None

-------------------------------------------------------------------------------
(* Calls: the instructions that name a function, and the function they are in. *)
CallInstr == {"call", "return_call", "ref.func"}
Calls(N, A) ==
  {[i |-> x.r.node, d |-> x.d, f |-> Within(N, A.anc, x.r.node, "func")] :
     x \in {x \in A.refs : x.r.sp = "func" /\ N[x.r.node].k = "instr" /\ N[x.r.node].i \in CallInstr}}
Name(d) == IF d.n # "" THEN d.n ELSE ToString(d.ix)
FuncDefs(A) == {d \in A.fields : d.sp = "func"}
Item(N, A, d) ==
  [n |-> Name(d), a |-> N[d.node].a, z |-> N[d.node].z, s |-> d.at,
   d |-> FuncHeader(N, A, d).v]
Clear(N, A, d) == FuncHeader(N, A, d).ok
-------------------------------------------------------------------------------
(* Inlay hints: the type of each local and global behind its references,   *)
(* and the name of each function behind its end.                           *)
Hints(N, A) ==
  LET rs == {x \in A.refs : x.r.sp \in {"local", "global"} /\ Cardinality(x.d) = 1}
  IN {[t |-> x.r.t, v |-> LET d == CHOOSE d \in x.d : TRUE
                          IN IF d.sp = "local" THEN LocalType(N, d) ELSE GlobalType(N, d)] : x \in rs}
     \cup {[t |-> N[d.node].z, v |-> "(func " \o d.n \o ")"] : d \in {d \in FuncDefs(A) : d.n # ""}}
OpenHints(A) == {x.r.t : x \in {x \in A.refs : Cardinality(x.d) > 1}}
-------------------------------------------------------------------------------
(* Completion: what is offered behind a reference are the definitions it   *)
(* may denote; behind a dollar sign only those that have a name.           *)
InScope(N, A, r) ==
  CASE r.sp = "label" -> LET enc == LabelScope(N, r.node)
                         IN {[n |-> IF N[enc[j]].n # "" THEN N[enc[j]].n ELSE ToString(j - 1), d |-> d] :
                               <<j, d>> \in {p \in (1..Len(enc)) \X A.labels : p[2].node = enc[p[1]]}}
    [] r.sp = "local" -> {[n |-> Name(d), d |-> d] : d \in {d \in A.locals : d.sc = Within(N, A.anc, r.node, "func")}}
    [] OTHER -> {[n |-> Name(d), d |-> d] : d \in {d \in A.fields : d.sp = r.sp /\ d.sc = Within(N, A.anc, r.node, "module")}}
ItemKind(sp) == CASE sp = "func" -> 3 [] sp = "type" -> 8 [] OTHER -> 6
Offer(N, A, o, dollar) ==
  [n |-> o.n, ins |-> IF dollar THEN SubSeq(o.n, 2, Len(o.n)) ELSE o.n, k |-> ItemKind(o.d.sp),
   ty |-> CASE o.d.sp = "local" -> LocalType(N, o.d) [] o.d.sp = "global" -> GlobalType(N, o.d) [] OTHER -> "",
   code |-> IF o.d.sp = "func" THEN FuncHeader(N, A, o.d).v ELSE ""]
\* references behind which the tool offers nothing, so far
NoOffers(N, r) == N[r.node].k \in {"memuse", "tableuse", "elemlist", "inlelem"}
                  \/ (N[r.node].k = "instr" /\ N[r.node].i \in {"call_indirect"})
===============================================================================
