-------------------------------- MODULE WatLex --------------------------------
(***************************************************************************)
(* The lexical grammar of the WebAssembly text format.  A text is a        *)
(* sequence of characters (strings of length one).  Lex(C) is the sequence *)
(* of its tokens [k, a, z, v]: kind, first and last character, spelling    *)
(* (spelling only for words).  Kinds: ws, lc (line comment), bc (block     *)
(* comment), lp, rp, str, word, and the ill-formed ones: badstr, opencmt   *)
(* (unterminated comment), bad (a character no token starts with).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
HexDigit == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
Punct == {"!","#","$","%","&","'","*","+","-",".","/",":","<","=",">","?","@","\\","^","_","`","|","~"}
IdChar == Lower \cup Upper \cup Digit \cup Punct
Space == {" ", "\t", "\n", "\r"}

At(C, i) == IF i <= Len(C) THEN C[i] ELSE ""

RECURSIVE RunEnd(_, _, _)         \* the last character of the run of S that i starts
RunEnd(C, i, S) == IF At(C, i + 1) \in S THEN RunEnd(C, i + 1, S) ELSE i

RECURSIVE LineEnd(_, _)
LineEnd(C, i) == IF i >= Len(C) \/ C[i + 1] \in {"\n", "\r"} THEN i ELSE LineEnd(C, i + 1)

RECURSIVE CommentEnd(_, _, _)     \* i is inside d > 0 open comments; 0 if they are never closed
CommentEnd(C, i, d) ==
  IF i > Len(C) THEN 0
  ELSE IF C[i] = "(" /\ At(C, i + 1) = ";" THEN CommentEnd(C, i + 2, d + 1)
  ELSE IF C[i] = ";" /\ At(C, i + 1) = ")" THEN IF d = 1 THEN i + 1 ELSE CommentEnd(C, i + 2, d - 1)
  ELSE CommentEnd(C, i + 1, d)

\* [z |-> last character, ok |-> closed and every escape legal]
RECURSIVE StringEnd(_, _, _)
StringEnd(C, i, ok) ==            \* i: the next character of the contents
  IF i > Len(C) \/ C[i] \in {"\n", "\r"} THEN [z |-> i - 1, ok |-> FALSE]
  ELSE IF C[i] = "\"" THEN [z |-> i, ok |-> ok]
  ELSE IF C[i] # "\\" THEN StringEnd(C, i + 1, ok)
  ELSE LET c == At(C, i + 1)
       IN IF c = "" THEN [z |-> i, ok |-> FALSE]
          ELSE IF c \in {"t", "n", "r", "\"", "'", "\\"} THEN StringEnd(C, i + 2, ok)
          ELSE IF c \in HexDigit /\ At(C, i + 2) \in HexDigit THEN StringEnd(C, i + 3, ok)
          ELSE IF c = "u" /\ At(C, i + 2) = "{" /\ At(C, i + 3) \in HexDigit
                  /\ At(C, RunEnd(C, i + 3, HexDigit) + 1) = "}" /\ RunEnd(C, i + 3, HexDigit) - i <= 8
               THEN StringEnd(C, RunEnd(C, i + 3, HexDigit) + 2, ok)
          ELSE StringEnd(C, i + 1, FALSE)

RECURSIVE Spell(_, _, _)
Spell(C, a, z) == IF a > z THEN "" ELSE IF a = z THEN C[a]
                  ELSE LET m == (a + z) \div 2 IN Spell(C, a, m) \o Spell(C, m + 1, z)

LexOne(C, i) ==
  LET c == C[i]  d == At(C, i + 1)
      T(k, z) == [k |-> k, a |-> i, z |-> z, v |-> ""]
  IN CASE c \in Space -> T("ws", RunEnd(C, i, Space))
       [] c = ";" /\ d = ";" -> T("lc", LineEnd(C, i + 1))
       [] c = "(" /\ d = ";" ->
            LET z == CommentEnd(C, i + 2, 1) IN IF z # 0 THEN T("bc", z)
                                             \* `(;;' never closed also reads as `(' and a line comment
                                             ELSE T(IF At(C, i + 2) = ";" THEN "oddcmt" ELSE "opencmt", Len(C))
       [] c = "(" -> T("lp", i)
       [] c = ")" -> T("rp", i)
       [] c = "\"" -> LET s == StringEnd(C, i + 1, TRUE) IN T(IF s.ok THEN "str" ELSE "badstr", s.z)
       [] c \in IdChar -> LET z == RunEnd(C, i, IdChar)
                          IN [k |-> "word", a |-> i, z |-> z, v |-> Spell(C, i, z)]
       [] OTHER -> T("bad", i)

Lex(C) ==
  FoldLeft(LAMBDA acc, i : IF i <= acc.z THEN acc
                           ELSE LET t == LexOne(C, i) IN [z |-> t.z, L |-> Append(acc.L, t)],
           [z |-> 0, L |-> <<>>], [i \in 1..Len(C) |-> i]).L

-------------------------------------------------------------------------------
(* Words: identifiers, numbers, keywords.                                  *)
RECURSIVE Digits(_, _, _, _)       \* C[a..z] is digit (_? digit)*
Digits(C, a, z, S) ==
  /\ a <= z /\ C[a] \in S
  /\ (a = z \/ (C[a + 1] = "_" /\ Digits(C, a + 2, z, S)) \/ (C[a + 1] # "_" /\ Digits(C, a + 1, z, S)))

Hexed(C, a, z) == z >= a + 2 /\ C[a] = "0" /\ C[a + 1] = "x"
IsNat(C, a, z) == IF Hexed(C, a, z) THEN Digits(C, a + 2, z, HexDigit) ELSE Digits(C, a, z, Digit)
Unsign(C, a) == IF C[a] \in {"+", "-"} THEN a + 1 ELSE a
IsInt(C, a, z) == Unsign(C, a) <= z /\ IsNat(C, Unsign(C, a), z)

\* mantissa and exponent of a float whose digits lie in S and whose exponent mark is in E
Float(C, a, z, S, E) ==
  LET marks == {j \in a..z : C[j] \in E}
      m == IF marks = {} THEN z + 1 ELSE CHOOSE j \in marks : \A h \in marks : j <= h
      dots == {j \in a..(m - 1) : C[j] = "."}
      d == IF dots = {} THEN m ELSE CHOOSE j \in dots : \A h \in dots : j <= h
  IN /\ Digits(C, a, d - 1, S)
     /\ (d + 1 <= m - 1 => Digits(C, d + 1, m - 1, S))
     /\ (m <= z => m + 1 <= z /\ Unsign(C, m + 1) <= z /\ Digits(C, Unsign(C, m + 1), z, Digit))
IsFloat(C, a, z) ==
  LET u == Unsign(C, a)
      w == IF u <= z THEN Spell(C, u, z) ELSE ""
  IN /\ u <= z
     /\ \/ w \in {"inf", "nan"}
        \/ (z >= u + 6 /\ Spell(C, u, u + 5) = "nan:0x" /\ Digits(C, u + 6, z, HexDigit))
        \/ (Hexed(C, u, z) /\ Float(C, u + 2, z, HexDigit, {"p", "P"}))
        \/ (~Hexed(C, u, z) /\ Float(C, u, z, Digit, {"e", "E"}))

StartsWith(C, a, z, s) == z >= a + Len(s) - 1 /\ Spell(C, a, a + Len(s) - 1) = s
IsMemArg(C, a, z) ==
  \/ StartsWith(C, a, z, "offset=") /\ IsNat(C, a + 7, z)
  \/ StartsWith(C, a, z, "align=") /\ IsNat(C, a + 6, z)

WordKind(C, a, z) ==
  CASE C[a] = "$" -> IF z > a THEN "id" ELSE "odd"
    [] C[a] \in Digit \/ (C[a] \in {"+", "-"}) ->
         IF IsNat(C, a, z) THEN "nat" ELSE IF IsInt(C, a, z) THEN "int"
         ELSE IF IsFloat(C, a, z) THEN "float" ELSE "odd"
    [] C[a] \in Lower -> IF IsFloat(C, a, z) THEN "float" ELSE IF IsMemArg(C, a, z) THEN "memarg"
                         ELSE IF StartsWith(C, a, z, "offset=") \/ StartsWith(C, a, z, "align=") THEN "odd" ELSE "kw"
    [] OTHER -> "odd"

\* the tokens a parser sees, words classified; adjacent words and strings run together are "odd"
Visible(C, L) ==
  LET solid(t) == t.k \in {"word", "str", "badstr"}
      at == SelectSeq([j \in 1..Len(L) |-> j], LAMBDA j : L[j].k \notin {"ws", "lc", "bc"})
  IN [n \in 1..Len(at) |->
        LET j == at[n]  t == L[j]
        IN [t EXCEPT !.k = IF t.k = "word" THEN WordKind(C, t.a, t.z) ELSE t.k]
           @@ [touch |-> j > 1 /\ solid(L[j - 1]) /\ solid(t)]]
===============================================================================
