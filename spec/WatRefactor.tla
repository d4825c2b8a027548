------------------------------ MODULE WatRefactor ------------------------------
(***************************************************************************)
(* The rewritings a client is offered: what each makes of the tokens of a  *)
(* document.  A text is a sequence of characters; W is the sequence of its *)
(* tokens' spellings (comments and white space left out).                  *)
(***************************************************************************)
EXTENDS WatLex

Piece(C, t) == SubSeq(C, t.a, t.z)
Code(L) == SelectSeq(L, LAMBDA t : t.k \notin {"ws", "lc", "bc"})
Remarks(C, L) == LET cs == SelectSeq(L, LAMBDA t : t.k \in {"lc", "bc"}) IN [j \in 1..Len(cs) |-> Piece(C, cs[j])]
Words(C, L) == LET T == Code(L) IN [j \in 1..Len(T) |-> Piece(C, T[j])]

\* es: edits [s, z, n], in order: the characters s < .. <= z become n
InOrder(es, len) == \A j \in 1..Len(es) : /\ es[j].s <= es[j].z /\ es[j].z <= len
                                          /\ j < Len(es) => es[j].z <= es[j + 1].s
Edited(C, es) ==
  LET r == FoldLeft(LAMBDA acc, e : [at |-> e.z, T |-> acc.T \o SubSeq(C, acc.at + 1, e.s) \o e.n], [at |-> 0, T |-> <<>>], es)
  IN r.T \o SubSeq(C, r.at + 1, Len(C))

LParen == <<"(">>
RParen == <<")">>
GroupWords(kw, types) == <<LParen, kw>> \o types \o <<RParen>>
TypeWords(W, nd) == [j \in 1..Len(nd.ty) |-> W[nd.ty[j].t]]
Replace(W, a, z, mid) == SubSeq(W, 1, a - 1) \o mid \o SubSeq(W, z + 1, Len(W))

\* every value type gets a group of its own
SplitGroup(W, nd) ==
  LET ts == TypeWords(W, nd)
  IN Replace(W, nd.a, nd.z, FlattenSeq([j \in 1..Len(ts) |-> GroupWords(W[nd.a + 1], <<ts[j]>>)]))
\* adjacent groups, from node f to node g, become one
JoinGroups(W, N, run) ==
  Replace(W, N[run[1]].a, N[run[Len(run)]].z,
          GroupWords(W[N[run[1]].a + 1], FlattenSeq([j \in 1..Len(run) |-> TypeWords(W, N[run[j]])])))

\* the groups to split where a request names the characters ra < .. <= rz; T: the tokens of the text
Reaches(T, nd, ra, rz) == T[nd.a].a - 1 <= ra /\ rz <= T[nd.z].z
Within(T, nd, ra, rz) == ra <= T[nd.a].a - 1 /\ T[nd.z].z <= rz
Splittable(N, T, ra, rz) ==
  {i \in 1..Len(N) : N[i].k \in {"param", "result", "local"} /\ N[i].n = "" /\ Len(N[i].ty) > 1 /\ Reaches(T, N[i], ra, rz)}
\* the first run of parameters without names that the request covers
Run(N, T, p, ra, rz) ==
  LET cs == N[p].c
      fit(j) == N[cs[j]].k = "param" /\ N[cs[j]].n = "" /\ Within(T, N[cs[j]], ra, rz)
      js == {j \in 1..Len(cs) : fit(j)}
      lo == CHOOSE j \in js : \A h \in js : j <= h
      hi == CHOOSE j \in js : (\A h \in lo..j : h \in js) /\ j + 1 \notin js
  IN IF js = {} THEN <<>> ELSE SubSeq(cs, lo, hi)
Joinable(N, T, ra, rz) ==
  {Run(N, T, p, ra, rz) : p \in {p \in 1..Len(N) : N[p].k \in {"typeuse", "functype"} /\ N[p].a <= N[p].z /\ Reaches(T, N[p], ra, rz)}} \ {<<>>}
TypesIn(N, run) == FoldLeft(LAMBDA n, i : n + Len(N[i].ty), 0, run)

\* what must be offered, and what may
Rewritings(N, W, T, ra, rz) ==
  LET js == TLCEval(Joinable(N, T, ra, rz))
      many == {r \in js : TypesIn(N, r) > 1}
      sp == {SplitGroup(W, N[i]) : i \in Splittable(N, T, ra, rz)}
  IN [must |-> sp \cup {JoinGroups(W, N, r) : r \in {r \in many : Len(r) > 1}},
      may |-> sp \cup {JoinGroups(W, N, r) : r \in js}]
===============================================================================
