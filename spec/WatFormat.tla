------------------------------- MODULE WatFormat -------------------------------
(***************************************************************************)
(* What formatting may and may not do to a text.  Texts are sequences of   *)
(* characters; their lexemes come from WatLex.                             *)
(*   Keeps   : the formatted text has the same tokens and comments in the  *)
(*             same order (comments padded when that is asked for)         *)
(*   Tidy    : every piece of white space has the canonical form           *)
(*   Layout  : where lines begin and how far they are indented             *)
(***************************************************************************)
EXTENDS WatLex, Integers

Solid(L) == SelectSeq(L, LAMBDA t : t.k # "ws")
Piece(C, t) == SubSeq(C, t.a, t.z)

Pad == {" ", "\t"}
\* a comment as the option `format comments' leaves it
Padded(c, k) ==
  IF k = "lc" THEN IF Len(c) = 2 \/ c[3] \in Pad THEN c ELSE <<";", ";", " ">> \o SubSeq(c, 3, Len(c))
  ELSE LET body == SubSeq(c, 3, Len(c) - 2)
       IN IF body = <<>> THEN c
          ELSE <<"(", ";">> \o (IF body[1] \in Pad THEN <<>> ELSE <<" ">>) \o body
               \o (IF body[Len(body)] \in Pad THEN <<>> ELSE <<" ">>) \o <<";", ")">>
Shown(C, t, pad) == IF pad /\ t.k \in {"lc", "bc"} THEN Padded(Piece(C, t), t.k) ELSE Piece(C, t)

\* the first place where the lexemes differ; 0 if they are the same
DiffersAt(C, L, D, M, pad) ==
  LET A == TLCEval(Solid(L))  B == TLCEval(Solid(M))
      n == IF Len(A) < Len(B) THEN Len(A) ELSE Len(B)
      bad == {j \in 1..n : A[j].k # B[j].k \/ Shown(C, A[j], pad) # Piece(D, B[j])}
  IN IF bad # {} THEN CHOOSE j \in bad : \A h \in bad : j <= h
     ELSE IF Len(A) # Len(B) THEN n + 1 ELSE 0

-------------------------------------------------------------------------------
(* White space.  o: [indent, tabs, crlf]                                   *)
NL(o) == IF o.crlf THEN <<"\r", "\n">> ELSE <<"\n">>
Repeat(s, n) == [i \in 1..n |-> s]
\* the indentation after the last line break of w, -1 if there is none
BreakAt(w) == LET s == {j \in 1..Len(w) : w[j] = "\n"} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A h \in s : h <= j
HasBreak(w) == \E j \in 1..Len(w) : w[j] = "\n"
Indent(w) == IF HasBreak(w) THEN Len(w) - BreakAt(w) ELSE 0 - 1

\* columns a given nesting depth takes
Width(o) == IF o.tabs THEN 1 ELSE o.indent

TidyBreak(w, o, aftercmt) ==
  LET body == SubSeq(w, 1, BreakAt(w))
      tail == SubSeq(w, BreakAt(w) + 1, Len(w))
      pads == IF aftercmt THEN {<<>>, <<" ">>} ELSE {<<>>}
  IN /\ \E p \in pads : body \in {p \o NL(o), p \o NL(o) \o NL(o)}
     /\ \A j \in 1..Len(tail) : tail[j] = (IF o.tabs THEN "\t" ELSE " ")
     /\ Len(tail) % Width(o) = 0

\* the white space between lexemes x and y
TidyGap(C, w, x, y, o) ==
  LET p == Piece(C, w)
      cmt == x.k \in {"lc", "bc"} \/ y.k \in {"lc", "bc"}
  IN IF HasBreak(p) THEN TidyBreak(p, o, x.k \in {"lc", "bc"})
     ELSE p = <<" ">> /\ (cmt \/ (x.k # "lp" /\ y.k # "rp"))
\* modules stay on the lines they were on
ModuleAt(M, j) ==
  M[j].k = "lp" /\ \E h \in j + 1..Len(M) : M[h].k = "word" /\ M[h].v = "module"
                                          /\ \A g \in j + 1..h - 1 : M[g].k \in {"ws", "lc", "bc"}
Touching(M, j) == LET x == M[j - 1]  y == M[j] IN
  x.k = "lp" \/ y.k = "rp" \/ x.k = "bc" \/ y.k \in {"lc", "bc"} \/ ModuleAt(M, j)

Untidy(D, M, o) ==        \* positions of white space that is not as it should be
  LET n == Len(M)
      gap(j) == M[j].k = "ws" /\ j > 1 /\ j < n
  IN {M[j].a : j \in {j \in 1..n : gap(j) /\ ~TidyGap(D, M[j], M[j - 1], M[j + 1], o)}}
     \cup {M[j].a : j \in {j \in 2..n : M[j].k # "ws" /\ M[j - 1].k # "ws" /\ ~Touching(M, j)}}
     \cup (IF n > 0 /\ M[1].k = "ws" THEN (IF Piece(D, M[1]) = NL(o) /\ n = 1 THEN {} ELSE {1}) ELSE {})
     \cup (IF n > 1 /\ (M[n].k # "ws" \/ Piece(D, M[n]) # NL(o)) THEN {M[n].a} ELSE {})

-------------------------------------------------------------------------------
(* Layout of a text without comments and blank lines.  N: its nodes        *)
(* (WatDoc), whose tokens are the solid lexemes of the formatted text.     *)
InstrKinds == {"instr", "block", "loop", "if"}
\* nodes that are not lines of their own: they begin with the token of a child
Spaceless(N, i) ==
  \/ N[i].k \in {"root", "elemlist", "typeuse", "blocktype"}
  \/ N[i].k \in {"then", "else"} /\ ~N[N[i].p].f
  \/ N[i].k \in {"offset", "elemexpr"} /\ N[i].c # <<>> /\ N[N[i].c[1]].a = N[i].a
MustBreak(N, i) ==
  \/ N[i].k \in InstrKinds
  \/ N[i].p # 0 /\ N[N[i].p].k = "module"
  \/ N[i].k \in {"then", "else", "offset", "elemexpr"}
MayBreak(N, i) == MustBreak(N, i) \/ N[i].k \in {"module", "param", "result", "local"}

Starts(D, M) ==           \* solid lexeme -> its column if it starts a line, else -1
  LET at == SelectSeq([j \in 1..Len(M) |-> j], LAMBDA j : M[j].k # "ws")
  IN [n \in 1..Len(at) |->
        LET j == at[n]
        IN IF j = 1 THEN 0 ELSE IF M[j - 1].k = "ws" THEN Indent(Piece(D, M[j - 1])) ELSE 0 - 1]

RECURSIVE Outer(_, _, _)  \* the nearest enclosing node that begins a line
Outer(N, col, i) ==
  IF i = 0 THEN 0
  ELSE IF N[i].k = "module" \/ (~Spaceless(N, i) /\ col[N[i].a] >= 0) THEN i ELSE Outer(N, col, N[i].p)

\* tokens `else' and `end' of the unfolded forms stand under the word that opened the block
Closers(D, M, N, col) ==
  LET S == TLCEval(Solid(M))
      isw(t, w) == S[t].k = "word" /\ S[t].v = w
  IN {i \in 1..Len(N) : N[i].k \in {"block", "loop", "if"} /\ ~N[i].f /\
        ~\E t \in {N[i].z, N[i].z - 1} : isw(t, "end") /\ col[t] = col[N[i].a]}
     \cup {i \in 1..Len(N) : N[i].k = "else" /\ ~N[N[i].p].f /\ col[N[i].a] # col[N[N[i].p].a]}

LayoutFaults(D, M, N, o) ==
  LET col == TLCEval(Starts(D, M))
  IN {<<N[i].a, "line break">> : i \in {i \in 1..Len(N) : ~Spaceless(N, i) /\
        ((MustBreak(N, i) /\ col[N[i].a] < 0) \/ (~MayBreak(N, i) /\ col[N[i].a] >= 0))}}
     \cup {<<N[i].a, "indentation">> : i \in {i \in 1..Len(N) : ~Spaceless(N, i) /\ col[N[i].a] >= 0 /\
        LET u == Outer(N, col, N[i].p)
        IN col[N[i].a] # (IF u = 0 THEN 0 ELSE IF N[u].k = "module" THEN Width(o) ELSE col[N[u].a] + Width(o))}}
     \cup {<<N[i].a, "end or else">> : i \in Closers(D, M, N, col)}
===============================================================================
