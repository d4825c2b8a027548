------------------------------- MODULE WatWords -------------------------------
(***************************************************************************)
(* Words of the language, offered while they are being typed.  A word t of *)
(* a document is replaced by a beginning of it (the rest of its group may   *)
(* be missing as well: a client closes a parenthesis as soon as it opens),  *)
(* and the specification says which words must be offered there and which  *)
(* may be: those the grammar knows in the construct around it.             *)
(***************************************************************************)
EXTENDS WatInfo

CONSTANT LateClauses  \* FALSE: behind the first clause of an imported function nothing is required (the tool's parser loses track)

FieldWords == {"data", "elem", "export", "func", "global", "import", "memory", "start", "table", "type"}
External == {"func", "global", "memory", "table"}
ValTypes == {"i32", "i64", "f32", "f64", "v128", "funcref", "externref"}
RefTypes == {"funcref", "externref"}

\* keywords that may open a group directly inside a node of kind k
Openers(k) ==
  CASE k = "root" -> {"module"}
    [] k = "module" -> FieldWords
    [] k = "func" -> {"import", "export", "type", "param", "result", "local"}
    [] k = "type" -> {"func"}
    [] k = "functype" -> {"param", "result"}
    [] k = "global" -> {"import", "export", "mut"}
    [] k = "memory" -> {"import", "export", "data"}
    [] k = "table" -> {"import", "export", "elem"}
    [] k \in {"import", "export"} -> External
    [] k = "ifunc" -> {"type", "param", "result"}
    [] k = "iglobal" -> {"mut"}
    [] k = "data" -> {"memory", "offset"}
    [] k = "elem" -> {"table", "offset"}
    [] OTHER -> {}
\* other words that may follow in there
Bare(k) ==
  CASE k = "global" -> ValTypes
    [] k = "table" -> RefTypes
    [] k = "elem" -> RefTypes \cup {"func", "declare", "item"}
    [] OTHER -> {}
\* instructions may
HoldsCode(k) == k \in {"func", "global", "data", "elem"}

Blocks == {"block", "loop", "if"}
Wrappers == {"typeuse"}
CodeWords == Blocks \cup {"instr", "then", "else"}

\* the innermost group that word t opens (0: none)
Opened(N, t) == LET xs == {i \in 1..Len(N) : N[i].a + 1 = t /\ N[i].k \notin Wrappers /\ (N[i].k # "module" \/ N[i].kw = t)}
                IN IF xs = {} THEN 0 ELSE CHOOSE x \in xs : \A y \in xs : y <= x
RECURSIVE Around(_, _)
Around(N, i) == LET p == N[i].p IN IF p # 0 /\ N[p].k \in Wrappers THEN Around(N, p) ELSE p
RECURSIVE Owner(_, _, _)
Owner(N, i, t) == IF \E j \in 1..Len(N[i].c) : LET c == N[i].c[j] IN N[c].a <= t /\ t <= N[c].z
                  THEN Owner(N, LET j == CHOOSE j \in 1..Len(N[i].c) : LET c == N[i].c[j] IN N[c].a <= t /\ t <= N[c].z IN N[i].c[j], t)
                  ELSE i
\* the field (or module) an instruction stands in
RECURSIVE FieldOf(_, _)
FieldOf(N, i) == IF N[i].k \in {"func", "global", "data", "elem", "table", "module", "root"} THEN i ELSE FieldOf(N, N[i].p)

Free == [judged |-> FALSE, must |-> {}, may |-> {}, code |-> TRUE]
\* word t, spelled w, of kind k; dropped: the rest of its group is missing
Words(N, t, w, k, dropped) ==
  LET x == Opened(N, t)
      p == IF x = 0 THEN 0 ELSE Around(N, x)
      o == Owner(N, 1, t)
  IN CASE k = "instr" -> [judged |-> TRUE, must |-> {w}, code |-> TRUE,
                          may |-> LET f == N[FieldOf(N, o)].k IN Openers(f) \cup Bare(f)]
       [] k = "type" /\ N[o].k \in {"param", "result", "local", "globaltype"} /\ ~dropped ->
            [judged |-> TRUE, must |-> {w}, may |-> ValTypes, code |-> FALSE]
       [] k = "type" /\ N[o].k \in {"table", "itable"} /\ ~dropped -> [judged |-> TRUE, must |-> {w}, may |-> RefTypes, code |-> FALSE]
       [] k = "type" /\ N[o].k = "elemlist" /\ ~dropped ->
            [judged |-> TRUE, must |-> {w}, may |-> Bare("elem"), code |-> FALSE]
       [] k # "type" /\ x # 0 /\ N[x].k \in Blocks -> [judged |-> TRUE, must |-> {w}, code |-> TRUE, may |-> LET f == N[FieldOf(N, o)].k IN Openers(f)]
       [] k # "type" /\ x # 0 /\ p # 0 /\ N[p].k \notin CodeWords /\ w \in Openers(N[p].k) ->
            IF N[p].k = "ifunc" /\ ~LateClauses /\ N[x].a # N[N[p].c[1]].a THEN Free
            ELSE [judged |-> TRUE, must |-> {w}, may |-> Openers(N[p].k) \cup Bare(N[p].k), code |-> HoldsCode(N[p].k)]
       [] OTHER -> Free

\* mnemonics the tool does not offer, so far
Unlisted == {
   "data.drop", "elem.drop", "f32x4.abs", "f32x4.ceil", "f32x4.demote_f64x2_zero", "f32x4.eq", "f32x4.floor", "f32x4.ge", "f32x4.gt", "f32x4.le",
   "f32x4.lt", "f32x4.ne", "f32x4.nearest", "f32x4.neg", "f32x4.sqrt", "f32x4.trunc", "f64x2.abs", "f64x2.ceil", "f64x2.convert_low_i32x4_s",
   "f64x2.convert_low_i32x4_u", "f64x2.eq", "f64x2.floor", "f64x2.ge", "f64x2.gt", "f64x2.le", "f64x2.lt", "f64x2.ne", "f64x2.nearest", "f64x2.neg",
   "f64x2.promote_low_f32x4", "f64x2.sqrt", "f64x2.trunc", "i16x8.abs", "i16x8.all_true", "i16x8.bitmask", "i16x8.eq",
   "i16x8.extadd_pairwise_i8x16_s", "i16x8.extadd_pairwise_i8x16_u", "i16x8.extend_high_i8x16_s", "i16x8.extend_high_i8x16_u",
   "i16x8.extend_low_i8x16_s", "i16x8.extend_low_i8x16_u", "i16x8.extmul_high_i8x16_s", "i16x8.extmul_high_i8x16_u", "i16x8.extmul_low_i8x16_s",
   "i16x8.extmul_low_i8x16_u", "i16x8.ge_s", "i16x8.ge_u", "i16x8.gt_s", "i16x8.gt_u", "i16x8.le_s", "i16x8.le_u", "i16x8.lt_s", "i16x8.lt_u",
   "i16x8.narrow_i32x4_s", "i16x8.narrow_i32x4_u", "i16x8.ne", "i16x8.neg", "i16x8.q15mulr_sat_s", "i16x8.shl", "i16x8.shr_s", "i16x8.shr_u",
   "i32.extend16_s", "i32.extend8_s", "i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u", "i32x4.abs",
   "i32x4.all_true", "i32x4.bitmask", "i32x4.eq", "i32x4.extadd_pairwise_i16x8_s", "i32x4.extadd_pairwise_i16x8_u", "i32x4.extend_high_i16x8_s",
   "i32x4.extend_high_i16x8_u", "i32x4.extend_low_i16x8_s", "i32x4.extend_low_i16x8_u", "i32x4.extmul_high_i16x8_s", "i32x4.extmul_high_i16x8_u",
   "i32x4.extmul_low_i16x8_s", "i32x4.extmul_low_i16x8_u", "i32x4.ge_s", "i32x4.ge_u", "i32x4.gt_s", "i32x4.gt_u", "i32x4.le_s", "i32x4.le_u",
   "i32x4.lt_s", "i32x4.lt_u", "i32x4.ne", "i32x4.neg", "i32x4.shl", "i32x4.shr_s", "i32x4.shr_u", "i32x4.trunc_sat_f64x2_s_zero",
   "i32x4.trunc_sat_f64x2_u_zero", "i64.extend16_s", "i64.extend32_s", "i64.extend8_s", "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u",
   "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u", "i64x2.abs", "i64x2.all_true", "i64x2.bitmask", "i64x2.eq", "i64x2.extend_high_i32x4_s",
   "i64x2.extend_high_i32x4_u", "i64x2.extend_low_i32x4_s", "i64x2.extend_low_i32x4_u", "i64x2.extmul_high_i32x4_s", "i64x2.extmul_high_i32x4_u",
   "i64x2.extmul_low_i32x4_s", "i64x2.extmul_low_i32x4_u", "i64x2.ge_s", "i64x2.gt_s", "i64x2.le_s", "i64x2.lt_s", "i64x2.ne", "i64x2.neg",
   "i64x2.shl", "i64x2.shr_s", "i64x2.shr_u", "i8x16.abs", "i8x16.all_true", "i8x16.bitmask", "i8x16.eq", "i8x16.ge_s", "i8x16.ge_u", "i8x16.gt_s",
   "i8x16.gt_u", "i8x16.le_s", "i8x16.le_u", "i8x16.lt_s", "i8x16.lt_u", "i8x16.narrow_i16x8_s", "i8x16.narrow_i16x8_u", "i8x16.ne", "i8x16.neg",
   "i8x16.popcnt", "i8x16.shl", "i8x16.shr_s", "i8x16.shr_u", "memory.copy", "memory.fill", "memory.init", "ref.func", "ref.is_null", "return_call", "ref.null",
   "table.copy", "table.fill", "table.get", "table.grow", "table.init", "table.set", "table.size", "v128.and", "v128.andnot", "v128.any_true",
   "v128.bitselect", "v128.load16_lane", "v128.load16_splat", "v128.load16x4_s", "v128.load16x4_u", "v128.load32_lane", "v128.load32_splat",
   "v128.load32_zero", "v128.load32x2_s", "v128.load32x2_u", "v128.load64_lane", "v128.load64_splat", "v128.load64_zero", "v128.load8_lane",
   "v128.load8_splat", "v128.load8x8_s", "v128.load8x8_u", "v128.not", "v128.or", "v128.store16_lane", "v128.store32_lane", "v128.store64_lane",
   "v128.store8_lane", "v128.xor"}
\* the one it offers although no such instruction exists
Misnomers == {"i8x16.mul"}
ControlWords == Blocks \cup {"else", "end", "br", "br_if", "br_table", "return", "call", "call_indirect", "nop", "unreachable"}
Mnemonic(w) == w \in DOMAIN Opcode \/ w \in ControlWords \/ w \in Misnomers
KindOf(w) == IF w \in ValTypes THEN 7 ELSE 14
===============================================================================
