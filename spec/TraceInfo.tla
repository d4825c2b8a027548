------------------------------- MODULE TraceInfo -------------------------------
EXTENDS WatInfo, WatWords, TraceScope

(* e.hover: [t, at, code, rest] for the tokens of e.hovered that were answered;    *)
(* e.tk, e.word: kinds and spellings of the tokens; e.before: comments in front    *)
JudgeHover(N, A, e) ==
  LET ans(t) == {h \in SeqToSet(e.hover) : h.t = t}
      Ok(t) == LET w == HoverAt(N, A, e.tk, e.word, e.before, t)
                   as == ans(t)
               IN \/ ~w.ok
                  \/ ~w.has /\ as = {}
                  \/ w.has /\ Cardinality(as) = 1 /\ \A h \in as : /\ h.at = t /\ h.code = w.code
                                                                 /\ (h.rest \in w.rest \/ (w.rest = {"doc"} /\ Len(h.rest) > 2))
  IN {Diff("W20", "hover", t, ans(t), HoverAt(N, A, e.tk, e.word, e.before, t)) : t \in {t \in SeqToSet(e.hovered) : ~Ok(t)}}

(* e.prep: [t, r items]; e.inc, e.outg: [t token of the function asked about, r: [it item, c call ranges]] *)
JudgeCalls(N, A, e) ==
  LET cs == TLCEval(Calls(N, A))
      amb == \E c \in cs : Cardinality(c.d) > 1
      DefFor(t) == CHOOSE d \in FuncDefs(A) : d.at = t
      items(ds) == {Item(N, A, d) : d \in ds}
      ok(ds) == \A d \in ds : Clear(N, A, d)
      pairs(rs) == UNION {{<<x.it, c>> : c \in SeqToSet(x.c)} : x \in SeqToSet(rs)}
      total(rs) == FoldLeft(LAMBDA acc, x : acc + Len(x.c), 0, rs)
      span(i) == <<N[i].a, N[i].z>>
      Prep(t) ==
        LET xs == {x \in A.refs : x.r.t = t}
            own == {d \in FuncDefs(A) : t \in {N[d.node].nt, N[d.node].kw}}
        IN IF own # {} THEN own ELSE UNION {x.d : x \in {x \in xs : x.r.sp = "func"}}
      in(d) == {c \in cs : c.d = {d} /\ c.f # 0}
      caller(c) == CHOOSE d \in FuncDefs(A) : d.node = c.f
      out(d) == {c \in cs : c.f = d.node /\ Cardinality(c.d) = 1}
      wantIn(d) == {<<Item(N, A, caller(c)), span(c.i)>> : c \in in(d)}
      wantOut(d) == {<<Item(N, A, CHOOSE x \in c.d : TRUE), span(c.i)>> : c \in out(d)}
      lucid(d) == ~amb /\ Unambiguous(A, d)
  IN {Diff("W19", "call hierarchy", q.t, q.r, items(Prep(q.t))) :
              q \in {q \in SeqToSet(e.prep) : /\ Cardinality(Prep(q.t)) <= 1 /\ ok(Prep(q.t))
                                              /\ ~ (SeqToSet(q.r) = items(Prep(q.t)) /\ Len(q.r) = Cardinality(Prep(q.t)))}}
     \cup {Diff("W19", "incoming calls", q.t, pairs(q.r), wantIn(DefFor(q.t))) :
              q \in {q \in SeqToSet(e.inc) : LET d == DefFor(q.t) IN
                       /\ lucid(d) /\ ok({caller(c) : c \in in(d)})
                       /\ ~ (pairs(q.r) = wantIn(d) /\ total(q.r) = Cardinality(in(d)))}}
     \cup {Diff("W19", "outgoing calls", q.t, pairs(q.r), wantOut(DefFor(q.t))) :
              q \in {q \in SeqToSet(e.outg) : LET d == DefFor(q.t) IN
                       /\ lucid(d) /\ ok(UNION {c.d : c \in out(d)})
                       /\ ~ (pairs(q.r) = wantOut(d) /\ total(q.r) = Cardinality(out(d)))}}

(* e.hints[j]: [a, z first and last token that lie in the range asked about, r: [t, v]]; *)
JudgeHints(N, A, e) ==
  LET want == TLCEval(Hints(N, A))
      op == OpenHints(A)
  IN {Diff("W21", "inlay hints", j, SeqToSet(e.hints[j].r), {w \in want : e.hints[j].a <= w.t /\ w.t <= e.hints[j].z}) :
        j \in {j \in 1..Len(e.hints) :
                 LET q == e.hints[j]
                     got == SeqToSet(q.r)
                     w == {w \in want : q.a <= w.t /\ w.t <= q.z}
                 IN ~ (w \subseteq got /\ Len(q.r) = Cardinality(got) /\ \A g \in got \ w : g.t \in op)}}

(* e.compl: [t, d behind a dollar sign, has an answer, r: [n, ins, k, ty, code]] for references t *)
JudgeCompletion(N, A, e) ==
  LET Ref(t) == (CHOOSE x \in A.refs : x.r.t = t).r
      Want(c) == {o \in InScope(N, A, Ref(c.t)) : ~c.d \/ o.d.n # ""}
      Ok(c) == LET r == Ref(c.t)
                   want == Want(c)
                   count(w) == Cardinality({o \in want : Offer(N, A, o, c.d) = w})
               IN \/ ~c.has /\ NoOffers(N, r)
                  \/ r.sp = "func" /\ \E d \in FuncDefs(A) : ~Clear(N, A, d)
                  \/ /\ c.has
                     /\ Len(c.r) = Cardinality(want)
                     /\ \A g \in SeqToSet(c.r) : Cardinality({j \in 1..Len(c.r) : c.r[j] = g}) = count(g)
  IN {Diff("W22", "completion", c.t, c.r, {Offer(N, A, o, c.d) : o \in Want(c)}) : c \in {c \in SeqToSet(e.compl) : ~Ok(c)}}

(* e.words: [t, w word, k its kind, cut, typed, i index into e.lists, r: [n, k] keywords and types offered], *)
(* e.lists: the lists of instructions offered                                                             *)
JudgeWords(N, e) ==
  LET good == TLCEval([j \in 1..Len(e.lists) |-> /\ \A n \in SeqToSet(e.lists[j]) : Mnemonic(n)
                                                /\ Cardinality(SeqToSet(e.lists[j])) = Len(e.lists[j])])
      Ok(q) == LET w == Words(N, q.t, q.w, q.k, q.cut)
                   got == {x.n : x \in SeqToSet(q.r)}
                   ins == SeqToSet(e.lists[q.i])
               IN \/ ~w.judged
                  \/ /\ w.must \ Unlisted \subseteq got \cup ins
                     /\ got \subseteq w.may
                     /\ w.code \/ ins = {}
                     /\ good[q.i]
                     /\ Cardinality(got) = Len(q.r)
                     /\ \A x \in SeqToSet(q.r) : x.k = KindOf(x.n)
  IN {Diff("W26", "words offered", q.t, [typed |-> q.typed, kw |-> q.r, instructions |-> Len(e.lists[q.i])], Words(N, q.t, q.w, q.k, q.cut)) :
        q \in {q \in SeqToSet(e.words) : ~Ok(q)}}
===============================================================================
