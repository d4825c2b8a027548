------------------------------ MODULE TraceScope ------------------------------
(***************************************************************************)
(* Judges the recorded answers of the real language service about names.   *)
(* Each operator returns the set of disagreements between what the code    *)
(* answered (the event e) and what the specification says about the text   *)
(* that is current for that document (nodes N, analysis A).                *)
(***************************************************************************)
EXTENDS WatScope

Diff(p, what, t, got, want) ==
  [p |-> p, what |-> what, t |-> t, got |-> ToString(got), want |-> ToString(want)]

RefAt(A, t) == CHOOSE x \in A.refs : x.r.t = t
IsRef(A, t) == \E x \in A.refs : x.r.t = t
DefsAt(A, t) == {d \in OwnDefs(A) : d.at = t}

\* what a token stands for, when that is one visible, unambiguous definition
TargetOf(A, t) ==
  LET ds == IF IsRef(A, t) THEN RefAt(A, t).d ELSE DefsAt(A, t)
  IN IF Cardinality(ds) = 1 THEN {d \in ds : d.own /\ Unambiguous(A, d)} ELSE {}
EndOwner(N, t) == {i \in Ids(N) : t \in SeqToSet(N[i].ends)}
RenameTarget(N, A, t) ==
  IF EndOwner(N, t) # {} THEN {d \in A.labels : d.node \in EndOwner(N, t)} ELSE TargetOf(A, t)

JudgeDef(N, A, e) ==
  UNION {LET q == e.def[j]
             got == SeqToSet(q.r)
             ds == RefAt(A, q.t).d
             want == {d.at : d \in ds}
             ok == /\ Len(q.r) = Cardinality(got)
                   /\ got \subseteq want
                   /\ (got = {} => ds = {} \/ \A d \in ds : ~d.own)
         IN IF ok THEN {} ELSE {Diff("W06", "definition", q.t, got, want)}
         : j \in 1..Len(e.def)}

\* the types that the functions a reference denotes name
TypesNamed(N, A, ds) == UNION {UNION {TypeUseTargets(N, A.anc, A.fields, tu) : tu \in SeqToSet(KidsOf(N, d.node, {"typeuse"}))}
                               : d \in {d \in ds : d.sp = "func"}}
JudgeKin(N, A, e) ==
  UNION {LET q == e.kin[j]
             x == RefAt(A, q.t)
             ds == x.d
             plain == N[x.r.node].k = "instr"
             decl == SeqToSet(q.decl)
             ty == SeqToSet(q.ty)
             want == {d.at : d \in ds}
             types == IF plain THEN {d.at : d \in TypesNamed(N, A, ds)} ELSE {}
         IN (IF /\ Len(q.decl) = Cardinality(decl) /\ decl \subseteq want
                /\ (decl = {} => ~plain \/ x.r.sp # "func" \/ ds = {}) THEN {}
             ELSE {Diff("W23", "declaration", q.t, q.decl, want)})
            \cup (IF Cardinality(ds) > 1 \/ (Len(q.ty) = Cardinality(ty) /\ ty = types) THEN {}
                  ELSE {Diff("W23", "type definition", q.t, q.ty, types)})
         : j \in 1..Len(e.kin)}

JudgeRefs(N, A, e) ==
  UNION {LET q == e.refs[j]
             tgt == TargetOf(A, q.t)
             got == SeqToSet(q.r)
             want == IF tgt = {} THEN {}
                     ELSE LET d == CHOOSE d \in tgt : TRUE
                          IN RefsTo(A, d.at) \cup (IF q.incl THEN {d.at} ELSE {})
             judged == tgt # {} \/ (IsRef(A, q.t) /\ RefAt(A, q.t).d = {})
         IN IF judged => (Len(q.r) = Cardinality(got) /\ got = want) THEN {}
            ELSE {Diff("W07", "references", q.t, q.r, want)}
         : j \in 1..Len(e.refs)}

IdChars == {"0","1","2","3","4","5","6","7","8","9",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "!","#","$","%","&","'","*","+","-",".","/",":","<","=",">","?","@","\\","^","_","`","|","~"}
LegalName(cs) == Len(cs) >= 2 /\ cs[1] = "$" /\ \A j \in 2..Len(cs) : cs[j] \in IdChars

\* q: the token asked about, isid whether it is an identifier, the new name (as characters and as
\* text, never a name the document already uses), and the answer: st, edited tokens r, new texts nn
JudgeRename(N, A, e) ==
  UNION {LET q == e.ren[j]
             tgt == RenameTarget(N, A, q.t)
             d == CHOOSE d \in tgt : TRUE
             want == {d.nt} \cup NamedRefsTo(A, d.at) \cup SeqToSet(N[d.node].ends)
             got == SeqToSet(q.r)
             \* names nothing defines may follow along: the tool has one name scope for all fields
             slack == IF d.sp = "label" THEN {}
                      ELSE {x.r.t : x \in {x \in A.refs : x.d = {} /\ x.r.op.k = "id" /\ x.r.op.v = d.n}}
         IN IF ~LegalName(q.cs) \/ ~q.isid
            THEN IF q.st = "err" THEN {} ELSE {Diff("W08", "rename must be refused", q.t, q.st, "err")}
            ELSE IF tgt = {} \/ Rivals(A, d) \ A.labels # {} THEN {}
            ELSE IF q.st = "ok" /\ Len(q.r) = Cardinality(got) /\ want \subseteq got /\ got \subseteq want \cup slack
                    /\ SeqToSet(q.nn) \subseteq {q.new} THEN {}
            ELSE {Diff("W08", "rename " \o q.st, q.t, q.r, want)}
         : j \in 1..Len(e.ren)}

\* renaming can begin at identifiers, and only there
JudgeReady(e) ==
  UNION {LET q == e.ready[j]
         IN IF q.r = (IF q.id THEN <<q.t>> ELSE <<>>) THEN {} ELSE {Diff("W08", "rename can begin", q.t, q.r, q.id)}
         : j \in 1..Len(e.ready)}

JudgeUndef(N, A, e) ==
  LET got == SeqToSet(e.undef)
      want == Undefined(A)
  IN IF Len(e.undef) = Cardinality(got) /\ got = want THEN {}
     ELSE {Diff("W09", "undefined names", 0, e.undef, want)}

JudgeDup(N, A, e) ==
  LET got == {[t |-> e.dup[j].t, rel |-> SeqToSet(e.dup[j].rel)] : j \in 1..Len(e.dup)}
      want == Duplicated(A)
  IN IF Len(e.dup) = Cardinality(got) /\ got = want THEN {}
     ELSE {Diff("W10", "duplicate names", 0, got \ want, want \ got)}
===============================================================================
