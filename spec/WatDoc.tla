-------------------------------- MODULE WatDoc --------------------------------
(***************************************************************************)
(* The abstract syntax of a WebAssembly-text document, as the rest of the  *)
(* specification sees it.                                                  *)
(*                                                                         *)
(* A document is a sequence of nodes in preorder; node i has               *)
(*   k   kind ("module", "func", "instr", "block", ...)                    *)
(*   p   parent (0 for the root)          c   children, in order           *)
(*   n   the identifier written after the keyword ("" if none)             *)
(*   nt  the token that spells it (0)     kw  the keyword token            *)
(*   a,z first and last token             f   TRUE for the folded form     *)
(*   i   mnemonic of a plain instruction                                   *)
(*   op  operands: [k |-> "id"|"int"|"float"|"memarg"|"heap"|"str"|"node", *)
(*        v |-> spelling, t |-> token (child node for "node"),             *)
(*        n |-> value of a natural number]                                 *)
(*   ty  value types: [v |-> spelling, t |-> token]                        *)
(*   ends  tokens repeating the label after `else' / `end'                 *)
(* Tokens are numbered 1.. in document order.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ids(N) == 1..Len(N)

\* ancestors of i, innermost first
RECURSIVE AncFrom(_, _)
AncFrom(N, i) == IF N[i].p = 0 THEN <<>> ELSE <<N[i].p>> \o AncFrom(N, N[i].p)
Ancestors(N) == [i \in Ids(N) |-> AncFrom(N, i)]

FirstWith(seq, P(_)) ==
  LET hits == {j \in 1..Len(seq) : P(seq[j])}
  IN IF hits = {} THEN 0 ELSE seq[CHOOSE j \in hits : \A h \in hits : j <= h]

KidsOf(N, i, kinds) == SelectSeq(N[i].c, LAMBDA j : N[j].k \in kinds)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

SeqToSet(s) == {s[j] : j \in 1..Len(s)}

IsBlock(k) == k \in {"block", "loop", "if"}
===============================================================================
