------------------------------ MODULE TraceTypes ------------------------------
(* Judges the recorded diagnostics about operands against WatTypes.        *)
EXTENDS WatTypes, TraceScope

\* e.types: [a, z first and last token, k, exp, got, ra, rz (related range as tokens, 0 if none)]
SameDiag(w, g) == w.a = g.a /\ w.z = g.z /\ w.k = g.k /\ w.exp = g.exp /\ w.got = g.got
RelOk(N, w, g) == IF w.rel = 0 THEN TRUE
                  ELSE g.ra # 0 /\ g.ra <= w.rel /\ w.rel <= g.rz
                       /\ \E i \in Ids(N) : N[i].k = "param" /\ N[i].a <= g.ra /\ g.rz <= N[i].z
JudgeTypes(N, A, e) ==
  LET V == TLCEval(TypeCheck(N, A))
      got == SeqToSet(e.types)
      nodes(us) == {<<N[i].a, N[i].z>> : i \in us}
      ut == nodes(V.UT)
      uc == nodes(V.UC)
      open(g) == IF g.k = "type" THEN <<g.a, g.z>> \in ut ELSE <<g.a, g.z>> \in uc
  IN {Diff("W11", "not reported", w.a, "", w) : w \in {w \in V.E : ~ \E g \in got : SameDiag(w, g) /\ RelOk(N, w, g)}}
     \cup {Diff("W11", "reported", g.a, g, "") :
             g \in {g \in got : ~open(g) /\ ~ \E w \in V.E : SameDiag(w, g) /\ RelOk(N, w, g)}}

(* Immediates of the wrong class, and modules after the first.             *)
ImmClass(k) ==
  CASE k \in {"i32", "i64"} -> [ok |-> {"int"}, m |-> "expected integer"]
    [] k \in {"f32", "f64"} -> [ok |-> {"int", "float"}, m |-> "expected floating-point number"]
    [] k = "memarg" -> [ok |-> {"memarg"}, m |-> "expected memory argument"]
    [] OTHER -> [ok |-> {"int", "id"}, m |-> "expected identifier or unsigned integer"]
LiteralErrors(N, i) ==
  LET im == ImmediatesOf(N, i)
  IN {[t |-> N[i].op[j].t, m |-> ImmClass(im[j]).m] :
        j \in {j \in 1..Len(N[i].op) : j <= Len(im) /\ im[j] # "heap" /\ N[i].op[j].k \notin ImmClass(im[j]).ok}}
JudgeLiterals(N, A, e) ==
  LET want == UNION {LiteralErrors(N, i) : i \in {i \in Ids(N) : N[i].k = "instr"}}
      got == SeqToSet(e.literal)
      mods == KidsOf(N, 1, {"module"})
      wm == [j \in 1..Len(mods) - 1 |-> <<N[mods[j + 1]].a, N[mods[j + 1]].z>>]
  IN {Diff("W12", "wrong immediate not reported", w.t, "", w) : w \in want \ got}
     \cup {Diff("W12", "immediate reported", w.t, w, "") : w \in got \ want}
     \cup {Diff("W12", "immediate taken for an operand", t, "", "") : t \in SeqToSet(e.instr)}
     \cup IF Len(e.literal) = Cardinality(got) THEN {} ELSE {Diff("W12", "reported twice", 0, e.literal, "")}
     \cup IF e.multi = wm THEN {} ELSE {Diff("W12", "modules", 0, e.multi, wm)}
===============================================================================
