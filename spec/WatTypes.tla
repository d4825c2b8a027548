------------------------------- MODULE WatTypes -------------------------------
(***************************************************************************)
(* Operand types of plain instructions.  A folded instruction takes its    *)
(* operands from within its parentheses; in a sequence, an instruction in  *)
(* flat form takes them from the values its predecessors left.  What an    *)
(* instruction pops and pushes comes from WasmInstr, or from the           *)
(* declaration it names.  Nothing is said about code behind an instruction *)
(* whose effect the declarations don't fix here (branches, blocks with a   *)
(* type, unresolved names), nor about types that WasmInstr leaves open.    *)
(***************************************************************************)
EXTENDS WatScope, SequencesExt

W == INSTANCE WasmInstr
Table == TLCEval(W!Table)
\* not fixed by declarations, or not uniquely (amb)
NoType == [ok |-> FALSE, amb |-> FALSE, p |-> <<>>, r |-> <<>>, imm |-> 0]
Ambiguous == [NoType EXCEPT !.amb = TRUE]

\* the signature a type use stands for
TypesIn(N, groups) == FlattenSeq([g \in 1..Len(groups) |-> [j \in 1..Len(N[groups[g]].ty) |-> N[groups[g]].ty[j].v]])
SigUnder(N, i) == [ok |-> TRUE, amb |-> FALSE, p |-> TypesIn(N, KidsOf(N, i, {"param"})), r |-> TypesIn(N, KidsOf(N, i, {"result"}))]
FuncSig(N, A, f) ==
  LET tus == KidsOf(N, f, {"typeuse"}) IN
  IF tus = <<>> THEN [NoType EXCEPT !.ok = TRUE]
  ELSE IF KidsOf(N, tus[1], {"param", "result"}) # <<>> \/ N[tus[1]].op = <<>> THEN SigUnder(N, tus[1])
  ELSE LET tgt == TypeUseTargets(N, A.anc, A.fields, tus[1]) IN
       IF tgt = {} THEN NoType ELSE IF Cardinality(tgt) > 1 THEN Ambiguous
       ELSE SigUnder(N, KidsOf(N, (CHOOSE d \in tgt : TRUE).node, {"functype"})[1])

\* the tokens that stand for the parameters of a function defined here, in order
ParamTokens(A, f) ==
  LET ps == {d \in A.locals : d.sc = f /\ d.k = "param" /\ d.own}
  IN [j \in 1..Cardinality(ps) |-> (CHOOSE d \in ps : d.ix = j - 1).at]

LocalType(N, d) == LET g == N[d.node] IN
  IF g.k # "type" /\ g.n # "" THEN g.ty[1].v
  ELSE LET holders == IF g.k = "type" THEN SeqToSet(KidsOf(N, KidsOf(N, d.node, {"functype"})[1], {"param"})) ELSE {d.node}
           h == CHOOSE h \in holders : \E j \in 1..Len(N[h].ty) : N[h].ty[j].t = d.at
           j == CHOOSE j \in 1..Len(N[h].ty) : N[h].ty[j].t = d.at
       IN N[h].ty[j].v
GlobalType(N, d) == N[KidsOf(N, d.node, {"globaltype"})[1]].ty[1].v

\* The immediates of an instruction here.  Loads and stores take an offset, an
\* alignment, both or none before the rest; br_table takes all labels in front
\* of its operands.
ImmediatesOf(N, i) ==
  LET m == N[i].i
      im == IF m \in DOMAIN Table THEN Table[m].imm ELSE IF m \in DOMAIN W!Control THEN W!Control[m] ELSE <<>>
      op == N[i].op
      lead == IF \A j \in 1..Len(op) : op[j].k # "node" THEN Len(op)
              ELSE (CHOOSE j \in 1..Len(op) : op[j].k = "node" /\ \A h \in 1..j - 1 : op[h].k # "node") - 1
      mem == IF lead < Len(im) - 1 THEN 0 ELSE IF lead > Len(im) + 1 THEN 2 ELSE lead - Len(im) + 1
  IN IF im # <<>> /\ im[1] = "memarg" THEN [j \in 1..mem |-> "memarg"] \o Tail(im)
     ELSE IF m = "br_table" THEN [j \in 1..IF lead = 0 THEN 1 ELSE lead |-> "label"]
     ELSE im

\* what a plain instruction pops (type, token of the parameter it is for) and pushes
Plain(ps) == [j \in 1..Len(ps) |-> [t |-> ps[j], rel |-> 0]]
RefOf(N, A, i) == IF N[i].op = <<>> THEN {} ELSE {x \in A.refs : x.r.node = i /\ x.r.pos = 1}
TypeOf(N, A, i) ==
  LET m == N[i].i
      xs == RefOf(N, A, i)
      ds == UNION {x.d : x \in xs}
      d == CHOOSE d \in ds : TRUE
  IN CASE N[i].k # "instr" -> NoType
       [] m = "call" ->
            IF ds = {} THEN NoType ELSE IF Cardinality(ds) > 1 THEN Ambiguous
            ELSE LET s == FuncSig(N, A, d.node)
                     at == IF d.k = "func" THEN ParamTokens(A, d.node) ELSE <<>>
                 IN [ok |-> s.ok, amb |-> s.amb, r |-> s.r, imm |-> 1,
                     p |-> [j \in 1..Len(s.p) |-> [t |-> s.p[j], rel |-> IF Len(at) = Len(s.p) THEN at[j] ELSE 0]]]
       [] m \in {"local.get", "global.get"} ->
            IF ds = {} THEN NoType ELSE IF Cardinality(ds) > 1 THEN Ambiguous
            ELSE [ok |-> TRUE, amb |-> FALSE, p |-> <<>>, imm |-> 1,
                  r |-> <<IF m = "local.get" THEN LocalType(N, d) ELSE GlobalType(N, d)>>]
       [] m \in DOMAIN Table -> [ok |-> TRUE, amb |-> FALSE, p |-> Plain(Table[m].p), r |-> Table[m].r, imm |-> Len(ImmediatesOf(N, i))]
       [] OTHER -> NoType

-------------------------------------------------------------------------------
CountDiag(N, i, want, got) == [a |-> N[i].a, z |-> N[i].z, k |-> "count", exp |-> ToString(want), got |-> ToString(got), rel |-> 0]
TypeDiag(N, i, p, t) == [a |-> N[i].a, z |-> N[i].z, k |-> "type", exp |-> p.t, got |-> t, rel |-> p.rel]
Clash(p, t) == p.t # "any" /\ t # "any" /\ p.t # t
Values(n, ts) == [j \in 1..Len(ts) |-> [t |-> ts[j], n |-> n]]
Clashes(N, ps, vs) == {TypeDiag(N, vs[j].n, ps[j], vs[j].t) : j \in {j \in 1..Len(ps) : Clash(ps[j], vs[j].t)}}

\* E: what has to be reported; UT, UC: nodes about whose type / operand count nothing is said
Verdict(e, ut, uc) == [E |-> e, UT |-> ut, UC |-> uc]
Folded(N, TY, i) ==
  LET kids == SelectSeq(N[i].c, LAMBDA j : N[j].k \in {"instr", "block", "loop", "if"})
      Known(j) == N[j].k = "instr" /\ TY[j].ok
      all == \A j \in 1..Len(kids) : Known(kids[j])
      upto == IF all THEN Len(kids) ELSE (CHOOSE j \in 1..Len(kids) : ~Known(kids[j]) /\ \A h \in 1..j - 1 : Known(kids[h])) - 1
      vs == FlattenSeq([j \in 1..upto |-> Values(kids[j], TY[kids[j]].r)])
      others == Len(SelectSeq(N[i].op, LAMBDA o : o.k # "node"))
      ps == SubSeq(TY[i].p, 1, IF Len(vs) < Len(TY[i].p) THEN Len(vs) ELSE Len(TY[i].p))
  IN IF TY[i].amb \/ \E j \in 1..Len(kids) : TY[kids[j]].amb THEN Verdict({}, SeqToSet(kids), {i})
     \* a get has no operands, whatever it gets
     ELSE IF ~TY[i].ok THEN Verdict({}, {}, IF N[i].i \in {"local.get", "global.get"} THEN {i} ELSE {})
     ELSE IF ~all THEN Verdict(Clashes(N, ps, vs), {}, {})
     ELSE IF Len(vs) # Len(TY[i].p)
     THEN Verdict({CountDiag(N, i, Len(TY[i].p) + TY[i].imm, Len(vs) + others)}, SeqToSet(kids), {})
     ELSE Verdict(Clashes(N, TY[i].p, vs), {}, {})

\* In a sequence, nothing is known about the values below those that came
\* behind an instruction that doesn't return or whose effect isn't fixed by the
\* declarations seen here (acc.known).  Such values fit anything.
Diverging == {"unreachable", "return", "br", "br_table", "return_call", "return_call_indirect"}
Sequence(N, A, TY, s) ==
  LET seq == KidsOf(N, s, {"instr", "block", "loop", "if"})
      div == {i \in Ids(N) : N[i].k = "instr" /\ N[i].i \in Diverging}
      \* an operand of x, not within a block that x has as an operand
      IsOperand(x, j) == j = x \/ (x \in SeqToSet(A.anc[j]) /\ \A h \in SeqToSet(A.anc[j]) : (h > x) => N[h].k = "instr")
      Diverges(x) == \E j \in div : IsOperand(x, j)
      Forget(acc, us) == [acc EXCEPT !.known = FALSE, !.st = <<>>, !.UT = @ \cup us]
      Pop(acc) == IF acc.st = <<>> THEN acc ELSE [acc EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
      Step(acc, x) ==
        IF ~acc.live \/ TY[x].amb
        THEN [acc EXCEPT !.live = FALSE, !.UT = @ \cup {acc.st[j].n : j \in 1..Len(acc.st)} \cup {x}, !.st = <<>>,
                         !.UC = IF N[x].f THEN @ ELSE @ \cup {x}]
        ELSE IF N[x].k # "instr"
        THEN IF KidsOf(N, x, {"blocktype"}) # <<>> THEN Forget(acc, {})
             ELSE IF N[x].k = "if" /\ ~N[x].f THEN Pop(acc) ELSE acc
        ELSE IF N[x].i = "nop" THEN acc
        ELSE LET typed == TY[x].ok
                 ps == IF N[x].f \/ ~typed THEN <<>> ELSE TY[x].p
                 n == Len(acc.st) - Len(ps)
                 short == IF n < 0 THEN -n ELSE 0
                 top == SubSeq(acc.st, Len(acc.st) - (Len(ps) - short) + 1, Len(acc.st))
                 rest == SubSeq(acc.st, 1, Len(acc.st) - Len(top))
                 acc1 == IF short > 0 /\ acc.known
                         THEN [acc EXCEPT !.E = @ \cup {CountDiag(N, x, Len(ps), Len(acc.st))}, !.st = <<>>,
                                          !.UT = @ \cup {acc.st[j].n : j \in 1..Len(acc.st)}]
                         ELSE [acc EXCEPT !.E = @ \cup Clashes(N, SubSeq(ps, short + 1, Len(ps)), top), !.st = rest]
             IN IF ~typed \/ Diverges(x) THEN Forget(acc1, {})
                ELSE [acc1 EXCEPT !.st = @ \o Values(x, TY[x].r)]
  IN FoldLeft(Step, [st |-> <<>>, known |-> TRUE, live |-> TRUE, E |-> {}, UT |-> {}, UC |-> {}], seq)

\* flat instructions inside blocks and constant expressions are not in a sequence that is judged
TypeCheck(N, A) ==
  LET TY == TLCEval([i \in Ids(N) |-> TypeOf(N, A, i)])
      F == TLCEval({Folded(N, TY, i) : i \in {i \in Ids(N) : N[i].k = "instr" /\ N[i].f}})
      S == TLCEval({Sequence(N, A, TY, s) : s \in {s \in Ids(N) : N[s].k \in {"func", "global"}}})
      loose == {i \in Ids(N) : N[i].k = "instr" /\ ~N[i].f /\ N[N[i].p].k \notin {"func", "global"}}
  IN Verdict(UNION {f.E : f \in F} \cup UNION {s.E : s \in S},
             UNION {f.UT : f \in F} \cup UNION {s.UT : s \in S} \cup
               {i \in Ids(N) : N[i].k \in {"instr", "block", "loop", "if"} /\ \E j \in loose : N[j].p = N[i].p},
             UNION {f.UC : f \in F} \cup UNION {s.UC : s \in S} \cup loose)
===============================================================================
