------------------------------ MODULE WatSyntax ------------------------------
(***************************************************************************)
(* The context-free grammar of documents, over the tokens of WatLex, as a  *)
(* recogniser.  Every operator takes the tokens T and a position and       *)
(* returns the position after what it recognised, or 0.                    *)
(*                                                                         *)
(* The grammar comes in two strengths.  Strict(T): the text is well formed *)
(* by the standard, restricted to the constructs the tool knows.           *)
(* Lax(T): nothing a reasonable parser must complain about; it lets        *)
(* through what the tool deliberately tolerates (any keyword as mnemonic,  *)
(* tokens run together, doubled underscores, unknown escapes).  Texts in   *)
(* between are not judged.                                                 *)
(***************************************************************************)
EXTENDS WatLex, IOUtils

Reserved == {"end", "else", "then", "if", "block", "loop", "module", "func", "type", "param", "result",
             "local", "import", "export", "global", "memory", "table", "elem", "data", "start", "offset",
             "item", "declare", "mut", "shared", "unshared", "extern", "funcref", "externref", "i32", "i64",
             "f32", "f64", "v128"}
ValTypes == {"i32", "i64", "f32", "f64", "v128", "funcref", "externref"}
RefTypes == {"funcref", "externref"}
\* constructs of the standard the tool is known not to understand (see known_findings.json) are only
\* well formed when this is switched on
Full == "FULL" \in DOMAIN IOEnv
Shapes == {"i8x16", "i16x8", "i32x4", "i64x2", "f32x4", "f64x2"}

K(T, i) == IF i # 0 /\ i <= Len(T) THEN T[i].k ELSE ""
W(T, i) == IF i # 0 /\ i <= Len(T) /\ T[i].k = "kw" THEN T[i].v ELSE ""

\* repeat Step from i on until it stands still; 0 if it fails (a loop, not a recursion: TLC's
\* evaluation slows down with the depth of recursion)
Scan(T, i, Step(_)) ==
  IF i = 0 THEN 0
  ELSE FoldLeft(LAMBDA pos, j : IF pos = j THEN Step(j) ELSE pos, i, [k \in 1..(Len(T) + 1 - i) |-> i + k - 1])

Lp(T, i) == IF K(T, i) = "lp" THEN i + 1 ELSE 0
Rp(T, i) == IF K(T, i) = "rp" THEN i + 1 ELSE 0
Kw(T, i, w) == IF W(T, i) = w THEN i + 1 ELSE 0
Open(T, i, w) == IF K(T, i) = "lp" /\ W(T, i + 1) = w THEN i + 2 ELSE 0
OptId(T, i) == IF K(T, i) = "id" THEN i + 1 ELSE i
Str(T, i) == IF K(T, i) = "str" THEN i + 1 ELSE 0
Num(T, i) == IF K(T, i) = "nat" THEN i + 1 ELSE 0
Index(T, i) == IF K(T, i) \in {"id", "nat"} THEN i + 1 ELSE 0
ValType(T, i) == IF W(T, i) \in ValTypes THEN i + 1 ELSE 0
RefType(T, i) == IF W(T, i) \in RefTypes THEN i + 1 ELSE 0

RECURSIVE Strs(_, _), ValTypesFrom(_, _), Indexes(_, _)
Strs(T, i) == IF i # 0 /\ Str(T, i) # 0 THEN Strs(T, Str(T, i)) ELSE i
ValTypesFrom(T, i) == IF i # 0 /\ ValType(T, i) # 0 THEN ValTypesFrom(T, ValType(T, i)) ELSE i
Indexes(T, i) == IF i # 0 /\ Index(T, i) # 0 THEN Indexes(T, Index(T, i)) ELSE i

Typed(T, i, w) ==                 \* (param ..), (local ..): one named type or any number of types
  LET b == Open(T, i, w)
  IN IF b = 0 THEN 0
     ELSE IF K(T, b) = "id" THEN Rp(T, ValType(T, b + 1))
     ELSE Rp(T, ValTypesFrom(T, b))
Result(T, i) == LET b == Open(T, i, "result") IN IF b = 0 THEN 0 ELSE Rp(T, ValTypesFrom(T, b))

RECURSIVE Many(_, _, _)
Many(T, i, w) ==
  LET n == IF w = "result" THEN Result(T, i) ELSE Typed(T, i, w)
  IN IF i # 0 /\ Open(T, i, w) # 0 THEN (IF n = 0 THEN 0 ELSE Many(T, n, w)) ELSE i
Signature(T, i) == Many(T, Many(T, i, "param"), "result")

TypeUse(T, i) ==                  \* possibly empty
  IF i = 0 THEN 0
  ELSE LET b == Open(T, i, "type")
       IN IF b = 0 THEN Signature(T, i)
          ELSE LET e == Rp(T, Index(T, b)) IN IF e = 0 THEN 0 ELSE Signature(T, e)

Limits(T, i) ==
  LET a == Num(T, i)
      b == IF a = 0 THEN 0 ELSE IF Num(T, a) # 0 THEN Num(T, a) ELSE a
  IN IF b = 0 THEN 0 ELSE IF W(T, b) \in {"shared", "unshared"} THEN b + 1 ELSE b
TableType(T, i) == LET a == Limits(T, i) IN IF a = 0 THEN 0 ELSE RefType(T, a)
GlobalType(T, i) ==
  LET b == Open(T, i, "mut") IN IF b = 0 THEN ValType(T, i) ELSE Rp(T, ValType(T, b))

-------------------------------------------------------------------------------
(* Instructions; lax: any keyword is a mnemonic.                           *)
Wordy(T, i, lax) == W(T, i) # "" \/ (lax /\ (K(T, i) = "memarg" \/ (K(T, i) = "float" /\ SubSeq(T[i].v, 1, 1) \in {"n", "i"})))
IsMnemonic(T, i, lax) == Wordy(T, i, lax) /\ (lax \/ W(T, i) \notin Reserved)
BlockWord(w) == w \in {"block", "loop", "if"}

RECURSIVE Instr(_, _, _), Instrs(_, _, _), TopInstrs(_, _, _), FlatInstrs(_, _, _), Operands(_, _, _, _), FoldedInstrs(_, _, _)
BlockType(T, i) == TypeUse(T, i)

Operands(T, i, folded, lax) ==
  IF i = 0 THEN 0
  ELSE IF K(T, i) \in {"id", "nat", "int", "float", "str", "memarg"} THEN Operands(T, i + 1, folded, lax)
  ELSE IF W(T, i) \in {"func", "extern"} THEN Operands(T, i + 1, folded, lax)
  ELSE IF Open(T, i, "type") # 0 THEN Operands(T, TypeUse(T, i), folded, lax)
  ELSE IF Full /\ (Open(T, i, "param") # 0 \/ Open(T, i, "result") # 0) THEN Operands(T, TypeUse(T, i), folded, lax)
  ELSE IF Full /\ W(T, i) \in Shapes THEN Operands(T, i + 1, folded, lax)
  ELSE IF folded /\ K(T, i) = "lp" THEN LET n == Instr(T, i, lax) IN IF n = 0 THEN 0 ELSE Operands(T, n, folded, lax)
  ELSE i

Body(T, i, lax) == BlockType(T, OptId(T, i))
EndId(T, i) == OptId(T, i)
\* a lax reader also takes a repeated label after the parenthesis
LaxId(T, i, lax) == IF lax /\ i # 0 THEN OptId(T, i) ELSE i

Instr(T, i, lax) ==
  IF K(T, i) = "lp" THEN
    LET w == W(T, i + 1) IN
    CASE w \in {"block", "loop"} ->
           LaxId(T, Rp(T, TopInstrs(T, Body(T, i + 2, lax), lax)), lax)
      [] w = "if" ->
           LET c == FoldedInstrs(T, Body(T, i + 2, lax), lax)
               th == IF c = 0 THEN 0 ELSE Open(T, c, "then")
               te == IF th = 0 THEN 0 ELSE Rp(T, TopInstrs(T, th, lax))
               el == IF te = 0 THEN 0 ELSE Open(T, te, "else")
               ok == IF te = 0 THEN 0
                     ELSE IF el = 0 THEN Rp(T, te)
                     ELSE LET ee == Rp(T, TopInstrs(T, el, lax)) IN IF ee = 0 THEN 0 ELSE Rp(T, ee)
           \* without (then ..) a lax reader takes `if' for a mnemonic
           IN IF ok = 0 /\ lax THEN Rp(T, Operands(T, i + 2, TRUE, lax)) ELSE LaxId(T, ok, lax)
      [] OTHER -> IF IsMnemonic(T, i + 1, lax) THEN Rp(T, Operands(T, i + 2, TRUE, lax)) ELSE 0
  ELSE
    LET w == W(T, i) IN
    CASE w \in {"block", "loop"} ->
           LET e == Kw(T, FlatInstrs(T, Body(T, i + 1, lax), lax), "end")
           IN IF e = 0 THEN 0 ELSE EndId(T, e)
      [] w = "if" ->
           LET t == Instrs(T, Body(T, i + 1, lax), lax)
               el == IF t = 0 THEN 0 ELSE Kw(T, t, "else")
               b == IF el = 0 THEN t ELSE FlatInstrs(T, EndId(T, el), lax)
               e == IF b = 0 THEN 0 ELSE Kw(T, b, "end")
           IN IF e = 0 THEN 0 ELSE EndId(T, e)
      [] OTHER -> IF IsMnemonic(T, i, lax) THEN Operands(T, i + 1, FALSE, lax) ELSE 0

\* the instructions from i on: as many as there are (0 if one of them is ill-formed)
Begins(T, i, lax) ==
  \/ K(T, i) = "lp" /\ (lax \/ (Open(T, i, "then") = 0 /\ Open(T, i, "else") = 0))
  \/ Wordy(T, i, lax) /\ W(T, i) \notin {"end", "else"}
Instrs(T, i, lax) == Scan(T, i, LAMBDA j : IF Begins(T, j, lax) THEN Instr(T, j, lax) ELSE j)
FoldedInstrs(T, i, lax) ==
  Scan(T, i, LAMBDA j : IF \/ K(T, j) = "lp" /\ Open(T, j, "then") = 0 /\ (lax \/ Open(T, j, "else") = 0)
                           \/ lax /\ Wordy(T, j, lax)
                        THEN Instr(T, j, lax) ELSE j)
\* ... a lax reader takes an `else' that belongs to no `if' for a mnemonic
FlatInstrs(T, i, lax) ==
  Scan(T, i, LAMBDA j : IF Begins(T, j, lax) THEN Instr(T, j, lax)
                        ELSE IF lax /\ W(T, j) = "else" THEN Operands(T, j + 1, FALSE, lax) ELSE j)
\* ... and between parentheses an `end' as well
TopInstrs(T, i, lax) ==
  Scan(T, i, LAMBDA j : IF Begins(T, j, lax) THEN Instr(T, j, lax)
                        ELSE IF lax /\ W(T, j) \in {"end", "else"} THEN Operands(T, j + 1, FALSE, lax) ELSE j)

-------------------------------------------------------------------------------
(* Module fields                                                           *)
InlImport(T, i) == LET b == Open(T, i, "import") IN IF b = 0 THEN 0 ELSE LET s == Str(T, b) IN IF s = 0 THEN 0 ELSE Rp(T, Str(T, s))
InlExport(T, i) == LET b == Open(T, i, "export") IN IF b = 0 THEN 0 ELSE Rp(T, Str(T, b))
RECURSIVE InlMany(_, _)
InlMany(T, i) ==
  IF i = 0 THEN 0
  ELSE IF Open(T, i, "import") # 0 THEN InlMany(T, InlImport(T, i))
  ELSE IF Open(T, i, "export") # 0 THEN InlMany(T, InlExport(T, i)) ELSE i
OffsetExpr(T, i, lax) ==
  LET b == Open(T, i, "offset")
  IN IF b # 0 THEN Rp(T, TopInstrs(T, b, lax)) ELSE IF K(T, i) = "lp" THEN Instr(T, i, lax) ELSE 0
ElemExpr(T, i, lax) ==
  LET b == Open(T, i, "item")
  IN IF b # 0 THEN Rp(T, TopInstrs(T, b, lax)) ELSE IF K(T, i) = "lp" THEN Instr(T, i, lax) ELSE 0
RECURSIVE ElemExprs(_, _, _)
ElemExprs(T, i, lax) ==
  IF i # 0 /\ K(T, i) = "lp" THEN LET n == ElemExpr(T, i, lax) IN IF n = 0 THEN 0 ELSE ElemExprs(T, n, lax) ELSE i
ElemList(T, i, lax) ==
  IF W(T, i) = "func" \/ Index(T, i) # 0 THEN Indexes(T, i + 1)
  ELSE IF RefType(T, i) # 0 THEN ElemExprs(T, i + 1, lax) ELSE 0
Use(T, i, w) == LET b == Open(T, i, w) IN IF b = 0 THEN 0 ELSE Rp(T, Index(T, b))

Desc(T, i) ==                     \* import descriptor
  IF Open(T, i, "func") # 0 THEN Rp(T, TypeUse(T, OptId(T, i + 2)))
  ELSE IF Open(T, i, "global") # 0 THEN Rp(T, GlobalType(T, OptId(T, i + 2)))
  ELSE IF Open(T, i, "memory") # 0 THEN Rp(T, Limits(T, OptId(T, i + 2)))
  ELSE IF Open(T, i, "table") # 0 THEN Rp(T, TableType(T, OptId(T, i + 2))) ELSE 0

Field(T, i, lax) ==
  LET w == IF K(T, i) = "lp" THEN W(T, i + 1) ELSE ""
      n == OptId(T, i + 2)
  IN CASE w = "func" ->
            LET u == TypeUse(T, InlMany(T, n)) IN Rp(T, TopInstrs(T, Many(T, u, "local"), lax))
       [] w = "type" -> LET b == Open(T, n, "func") IN IF b = 0 THEN 0 ELSE Rp(T, Rp(T, Signature(T, b)))
       [] w = "import" -> LET s == Str(T, Str(T, i + 2)) IN IF s = 0 THEN 0 ELSE Rp(T, Desc(T, s))
       [] w = "export" ->
            LET s == Str(T, i + 2)
            IN IF s = 0 \/ K(T, s) # "lp" \/ W(T, s + 1) \notin {"func", "table", "memory", "global"} THEN 0
               ELSE Rp(T, Rp(T, Index(T, s + 2)))
       [] w = "start" -> Rp(T, Index(T, i + 2))
       [] w = "global" -> LET g == InlMany(T, n) IN Rp(T, TopInstrs(T, IF g = 0 THEN 0 ELSE GlobalType(T, g), lax))
       [] w = "memory" ->
            LET m == InlMany(T, n)
            IN IF m = 0 THEN 0
               ELSE IF K(T, m) = "lp" THEN LET d == Open(T, m, "data") IN IF d = 0 THEN 0 ELSE Rp(T, Rp(T, Strs(T, d)))
               ELSE Rp(T, Limits(T, m))
       [] w = "table" ->
            LET m == InlMany(T, n)
                r == IF m = 0 THEN 0 ELSE RefType(T, m)
            IN IF m = 0 THEN 0
               ELSE IF r = 0 THEN Rp(T, TableType(T, m))
               ELSE LET e == Open(T, r, "elem")
                    IN IF e = 0 THEN 0
                       ELSE IF K(T, e) = "lp" THEN Rp(T, Rp(T, ElemExprs(T, e, lax)))
                       ELSE Rp(T, Rp(T, Indexes(T, e)))
       [] w = "data" ->
            LET m == IF Use(T, n, "memory") # 0 THEN Use(T, n, "memory") ELSE n
                o == IF K(T, m) = "lp" THEN OffsetExpr(T, m, lax) ELSE m
            IN Rp(T, Strs(T, o))
       [] w = "elem" ->
            IF W(T, n) = "declare" THEN Rp(T, ElemList(T, n + 1, lax))
            ELSE IF ElemList(T, n, lax) # 0 THEN Rp(T, ElemList(T, n, lax))
            ELSE LET t == IF Use(T, n, "table") # 0 THEN Use(T, n, "table") ELSE n
                     o == OffsetExpr(T, t, lax)
                 IN IF o = 0 THEN 0
                    ELSE IF K(T, o) = "rp" THEN o + 1 ELSE Rp(T, ElemList(T, o, lax))
       [] OTHER -> 0

Fields(T, i, lax) == Scan(T, i, LAMBDA j : IF K(T, j) = "lp" THEN Field(T, j, lax) ELSE j)
Module(T, i, lax) == LET b == Open(T, i, "module") IN IF b = 0 THEN 0 ELSE Rp(T, Fields(T, OptId(T, b), lax))
Modules(T, i, lax) == Scan(T, i, LAMBDA j : Module(T, j, lax)) = Len(T) + 1

\* what the tool is known to tolerate inside one word
Tolerate(T) == [i \in 1..Len(T) |-> IF T[i].k = "badstr" THEN [T[i] EXCEPT !.k = "str"] ELSE T[i]]
HasOdd(T) == \E i \in 1..Len(T) : T[i].k \in {"odd", "oddcmt"} \/ T[i].touch
Count(T, k) == Cardinality({i \in 1..Len(T) : T[i].k = k})
Hopeless(T) == Count(T, "bad") + Count(T, "opencmt") > 0 \/ Count(T, "lp") # Count(T, "rp")

WellFormed(T) == ~HasOdd(T) /\ ~Hopeless(T) /\ Modules(T, 1, FALSE)
IllFormed(T) == Count(T, "oddcmt") = 0 /\ (Hopeless(T) \/ (~HasOdd(T) /\ ~Modules(Tolerate(T), 1, TRUE)))
===============================================================================
