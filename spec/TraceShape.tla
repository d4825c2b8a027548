------------------------------ MODULE TraceShape ------------------------------
EXTENDS WatShape, TraceScope

\* by the standard's rules, without the tool's known deviations
Standard == PerSpace

(* e.sem, e.cut[j].std / .rel: [k token (or comment, numbered on) / 0, c class], in the order given;  *)
(* e.order: tokens and comments in document order; e.declared, e.legend: token types                  *)
JudgeSemantic(N, A, e) ==
  LET known == {"type", "parameter", "variable", "function", "keyword", "comment", "string", "number", "operator"}
      legend == known \cap SeqToSet(e.declared)
      cls == TLCEval([t \in SeqToSet(e.order) |-> TokenClass(N, A, e.tk, t)])
      Must(t) == cls[t] # {} /\ cls[t] \subseteq legend
      May(t) == cls[t] \cap legend # {}
      \* answer: a sub-sequence of ts that has every token that must be classified
      Fits(ans, ts, free) ==
        /\ \A j \in 1..Len(ans) : ans[j].k \in SeqToSet(ts) \/ (j = 1 /\ free)
        /\ \A j \in 1..Len(ans) : ans[j].k \in DOMAIN cls => ans[j].c \in cls[ans[j].k] \cap legend
        /\ LET ks == [j \in 1..Len(ans) |-> ans[j].k]
               want == SelectSeq(ts, LAMBDA t : t \in SeqToSet(ks))
           IN ks = want
        /\ \A t \in SeqToSet(ts) : Must(t) => \E j \in 1..Len(ans) : ans[j].k = t
  IN (IF SeqToSet(e.legend) = legend THEN {} ELSE {Diff("W16", "legend", 0, e.legend, legend)})
     \cup (IF Fits(e.sem, e.order, FALSE) THEN {}
           ELSE LET odd == {j \in 1..Len(e.sem) : e.sem[j].k \notin DOMAIN cls \/ e.sem[j].c \notin cls[e.sem[j].k] \cap legend}
                    miss == {t \in SeqToSet(e.order) : Must(t) /\ ~ \E j \in 1..Len(e.sem) : e.sem[j].k = t}
                IN {Diff("W16", "semantic tokens", 0, {e.sem[j] : j \in odd}, [miss |-> miss, cls |-> {cls[e.sem[j].k] : j \in {j \in odd : e.sem[j].k \in DOMAIN cls}}])})
     \cup {Diff("W16", "semantic tokens of a range", j, IF Standard THEN e.cut[j].std ELSE e.cut[j].rel, e.cut[j].in)
             : j \in {j \in 1..Len(e.cut) : ~ (Fits(e.cut[j].std, e.cut[j].in, FALSE)
                                               \/ (~Standard /\ Fits(e.cut[j].rel, e.cut[j].in, FALSE)))}}

(* e.outline: [n name, k kind, a,z range, sa,sz selection range, p first token of the parent], preorder *)
JudgeOutline(N, A, e) ==
  LET Want(d, kind, up) == [n |-> Display(d), k |-> kind, p |-> up, d |-> d]
      mods == KidsOf(N, 1, {"module"})
      fields(m) == {d \in A.fields : d.sc = m}
      \* every field definition is shown once, below its module, and the locals below their function
      Shows(x, d, kind, up) ==
        LET nd == IF d.k \in {"ifunc", "iglobal", "imemory", "itable"} THEN N[d.node].p ELSE d.node IN
        /\ x.n = Display(d) /\ x.k = kind /\ x.p = up
        /\ IF d.k = "local" /\ d.n = "" THEN x.a = d.at /\ x.z = d.at
           ELSE x.a <= N[d.node].a /\ N[d.node].z <= x.z /\ x.a >= N[nd].a /\ x.z <= N[nd].z
        /\ IF d.n # "" THEN (x.sa = d.nt /\ x.sz = d.nt) \/ (nd # d.node /\ x.sa = x.a /\ x.sz = x.z)
           ELSE x.sa = x.a /\ x.sz = x.z
      tops == {j \in 1..Len(e.outline) : e.outline[j].p = 0}
      wantF == {[d |-> d, kind |-> IF d.sp = "func" THEN "func" ELSE "var", up |-> N[d.sc].a] : d \in A.fields}
      wantL == {[d |-> d, kind |-> "var", up |-> N[d.sc].a] : d \in {d \in A.locals : d.own /\ d.k = "local"}}
      want == wantF \cup wantL
      shown(w) == {j \in 1..Len(e.outline) : Shows(e.outline[j], w.d, w.kind, w.up)}
      full == {m \in SeqToSet(mods) : fields(m) # {}}
      key(x) == <<x.a, x.z>>
  IN {Diff("W17", "not in the outline", w.d.at, "", w.d) : w \in {w \in want : Cardinality(shown(w)) # 1}}
     \cup (IF Cardinality(want) + Cardinality(tops) = Len(e.outline) THEN {}
           ELSE {Diff("W17", "outline has something else", 0, Len(e.outline), Cardinality(want))})
     \cup (IF /\ {<<N[m].a, N[m].z>> : m \in full} \subseteq {key(e.outline[j]) : j \in tops}
              /\ {key(e.outline[j]) : j \in tops} \subseteq {<<N[m].a, N[m].z>> : m \in SeqToSet(mods)}
              /\ Cardinality(tops) = Cardinality({key(e.outline[j]) : j \in tops})
              /\ \A j \in tops : e.outline[j].k = "module"
           THEN {} ELSE {Diff("W17", "modules of the outline", 0, {e.outline[j] : j \in tops}, {<<N[m].a, N[m].z>> : m \in full})})
     \cup (IF \A j \in 1..Len(e.outline) - 1 : e.outline[j].a <= e.outline[j + 1].a THEN {}
           ELSE {Diff("W17", "order of the outline", 0, [j \in 1..Len(e.outline) |-> e.outline[j].a], "document order")})

JudgeFolding(N, e) ==
  LET want == Foldable(N, e.tk, e.ln)
      got == SeqToSet(e.fold)
  IN {Diff("W18", "not foldable", g[1], "", g) : g \in want \ got}
     \cup {Diff("W18", "foldable", g[1], g, "") : g \in got \ want}
     \cup IF Len(e.fold) = Cardinality(got) THEN {} ELSE {Diff("W18", "folded twice", 0, e.fold, "")}

(* e.sel[j]: the token asked about and the ranges the selection grows through (<<0,-1>>: everything) *)
JudgeSelection(N, e) ==
  LET gs == Groups(e.tk)
      us == Units(N, e.tk)
      Cover(t) == {g \in us : g[1] < t /\ t < g[2]}
      nodes(t) == {<<N[i].a, N[i].z>> : i \in {i \in Ids(N) : N[i].k # "root" /\ N[i].a <= t /\ t <= N[i].z}}
      Sound(q) ==
        /\ q.r # <<>> /\ q.r[1] = <<q.t, q.t>> /\ q.r[Len(q.r)] = <<0, -1>>
        /\ \A j \in 1..Len(q.r) - 1 : q.r[j] # <<0, 0>>
              /\ (j > 1 => q.r[j] # <<0, -1>> /\ q.r[j][1] <= q.r[j - 1][1] /\ q.r[j - 1][2] <= q.r[j][2])
              \* no range cuts a parenthesised group
              /\ \A g \in gs : ~ (q.r[j][1] <= g[1] /\ g[1] <= q.r[j][2] /\ q.r[j][2] < g[2])
                               /\ ~ (q.r[j][1] <= g[2] /\ g[2] <= q.r[j][2] /\ g[1] < q.r[j][1])
        /\ Cover(q.t) \subseteq SeqToSet(q.r)
        /\ nodes(q.t) \subseteq SeqToSet(q.r)
  IN (IF Len(e.sel) = e.asked THEN {} ELSE {Diff("W18", "selection", 0, Len(e.sel), e.asked)})
     \cup {Diff("W18", "selection", q.t, q.r, Cover(q.t) \cup nodes(q.t)) : q \in {q \in SeqToSet(e.sel) : ~Sound(q)}}
===============================================================================
