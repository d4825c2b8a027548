------------------------------- MODULE WasmCode -------------------------------
(***************************************************************************)
(* The opcodes of WebAssembly's plain instructions, from the tables of the *)
(* core specification: each table gives the names that have consecutive    *)
(* opcodes from a first one ("" for an opcode that is not in use).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Of(t, ops) == [j \in 1..Len(ops) |-> IF ops[j] = "" THEN "" ELSE t \o "." \o ops[j]]

IntOps == <<"clz", "ctz", "popcnt", "add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor",
            "shl", "shr_s", "shr_u", "rotl", "rotr">>
IntRel == <<"eqz", "eq", "ne", "lt_s", "lt_u", "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u">>
FloatRel == <<"eq", "ne", "lt", "gt", "le", "ge">>
FloatOps == <<"abs", "neg", "ceil", "floor", "trunc", "nearest", "sqrt", "add", "sub", "mul", "div", "min", "max", "copysign">>
LaneRel == Tail(IntRel)
Widening(op, from) == <<op \o "_low_" \o from \o "_s", op \o "_high_" \o from \o "_s",
                        op \o "_low_" \o from \o "_u", op \o "_high_" \o from \o "_u">>

\* one byte, from 1A (drop), 20 (local.get), 25 (table.get), 28 (i32.load) and D0 (ref.null)
Plain1 == [
  from1A |-> <<"drop", "select">>,
  from20 |-> <<"local.get", "local.set", "local.tee", "global.get", "global.set", "table.get", "table.set">>,
  from28 |-> <<"i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s",
               "i32.load16_u", "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s",
               "i64.load32_u", "i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16",
               "i64.store8", "i64.store16", "i64.store32", "memory.size", "memory.grow",
               "i32.const", "i64.const", "f32.const", "f64.const">>
             \o Of("i32", IntRel) \o Of("i64", IntRel) \o Of("f32", FloatRel) \o Of("f64", FloatRel)
             \o Of("i32", IntOps) \o Of("i64", IntOps) \o Of("f32", FloatOps) \o Of("f64", FloatOps)
             \o <<"i32.wrap_i64", "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u",
                  "i64.extend_i32_s", "i64.extend_i32_u", "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s",
                  "i64.trunc_f64_u", "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s",
                  "f32.convert_i64_u", "f32.demote_f64", "f64.convert_i32_s", "f64.convert_i32_u",
                  "f64.convert_i64_s", "f64.convert_i64_u", "f64.promote_f32", "i32.reinterpret_f32",
                  "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64", "i32.extend8_s",
                  "i32.extend16_s", "i64.extend8_s", "i64.extend16_s", "i64.extend32_s">>,
  fromD0 |-> <<"ref.null", "ref.is_null", "ref.func">>]

\* after FC
Extended ==
  <<"i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u",
    "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u",
    "memory.init", "data.drop", "memory.copy", "memory.fill", "table.init", "elem.drop", "table.copy",
    "table.grow", "table.size", "table.fill">>

\* after FD
Vector ==
     Of("v128", <<"load", "load8x8_s", "load8x8_u", "load16x4_s", "load16x4_u", "load32x2_s", "load32x2_u",
                  "load8_splat", "load16_splat", "load32_splat", "load64_splat", "store", "const">>)
  \o Of("i8x16", <<"shuffle", "swizzle", "splat">>)
  \o <<"i16x8.splat", "i32x4.splat", "i64x2.splat", "f32x4.splat", "f64x2.splat",
       "i8x16.extract_lane_s", "i8x16.extract_lane_u", "i8x16.replace_lane",
       "i16x8.extract_lane_s", "i16x8.extract_lane_u", "i16x8.replace_lane",
       "i32x4.extract_lane", "i32x4.replace_lane", "i64x2.extract_lane", "i64x2.replace_lane",
       "f32x4.extract_lane", "f32x4.replace_lane", "f64x2.extract_lane", "f64x2.replace_lane">>
  \o Of("i8x16", LaneRel) \o Of("i16x8", LaneRel) \o Of("i32x4", LaneRel)
  \o Of("f32x4", FloatRel) \o Of("f64x2", FloatRel)
  \o Of("v128", <<"not", "and", "andnot", "or", "xor", "bitselect", "any_true",
                  "load8_lane", "load16_lane", "load32_lane", "load64_lane",
                  "store8_lane", "store16_lane", "store32_lane", "store64_lane", "load32_zero", "load64_zero">>)
  \o <<"f32x4.demote_f64x2_zero", "f64x2.promote_low_f32x4">>
  \o Of("i8x16", <<"abs", "neg", "popcnt", "all_true", "bitmask", "narrow_i16x8_s", "narrow_i16x8_u">>)
  \o Of("f32x4", <<"ceil", "floor", "trunc", "nearest">>)
  \o Of("i8x16", <<"shl", "shr_s", "shr_u", "add", "add_sat_s", "add_sat_u", "sub", "sub_sat_s", "sub_sat_u">>)
  \o Of("f64x2", <<"ceil", "floor">>)
  \o Of("i8x16", <<"min_s", "min_u", "max_s", "max_u">>)
  \o <<"f64x2.trunc", "i8x16.avgr_u", "i16x8.extadd_pairwise_i8x16_s", "i16x8.extadd_pairwise_i8x16_u",
       "i32x4.extadd_pairwise_i16x8_s", "i32x4.extadd_pairwise_i16x8_u">>
  \o Of("i16x8", <<"abs", "neg", "q15mulr_sat_s", "all_true", "bitmask", "narrow_i32x4_s", "narrow_i32x4_u">>
                 \o Widening("extend", "i8x16")
                 \o <<"shl", "shr_s", "shr_u", "add", "add_sat_s", "add_sat_u", "sub", "sub_sat_s", "sub_sat_u">>)
  \o <<"f64x2.nearest">>
  \o Of("i16x8", <<"mul", "min_s", "min_u", "max_s", "max_u", "", "avgr_u">> \o Widening("extmul", "i8x16"))
  \o Of("i32x4", <<"abs", "neg", "", "all_true", "bitmask", "", "">> \o Widening("extend", "i16x8")
                 \o <<"shl", "shr_s", "shr_u", "add", "", "", "sub", "", "", "", "mul", "min_s", "min_u", "max_s",
                      "max_u", "dot_i16x8_s", "">> \o Widening("extmul", "i16x8"))
  \o Of("i64x2", <<"abs", "neg", "", "all_true", "bitmask", "", "">> \o Widening("extend", "i32x4")
                 \o <<"shl", "shr_s", "shr_u", "add", "", "", "sub", "", "", "", "mul", "eq", "ne", "lt_s", "gt_s",
                      "le_s", "ge_s">> \o Widening("extmul", "i32x4"))
  \o Of("f32x4", <<"abs", "neg", "", "sqrt", "add", "sub", "mul", "div", "min", "max", "pmin", "pmax">>)
  \o Of("f64x2", <<"abs", "neg", "", "sqrt", "add", "sub", "mul", "div", "min", "max", "pmin", "pmax">>)
  \o <<"i32x4.trunc_sat_f32x4_s", "i32x4.trunc_sat_f32x4_u", "f32x4.convert_i32x4_s", "f32x4.convert_i32x4_u",
       "i32x4.trunc_sat_f64x2_s_zero", "i32x4.trunc_sat_f64x2_u_zero",
       "f64x2.convert_low_i32x4_s", "f64x2.convert_low_i32x4_u">>

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Byte(n) == "0x" \o Digit[(n \div 16) + 1] \o Digit[(n % 16) + 1]
\* the opcode after a prefix is a LEB128 number
Code(prefix, n) == IF prefix # "" /\ n > 127 THEN Byte(n) \o " 0x01" ELSE Byte(n)
Numbered(prefix, from, names) ==
  [x \in {names[j] : j \in 1..Len(names)} \ {""} |-> prefix \o Code(prefix, from + (CHOOSE j \in 1..Len(names) : names[j] = x) - 1)]
Opcode ==
     Numbered("", 26, Plain1.from1A) @@ Numbered("", 32, Plain1.from20) @@ Numbered("", 40, Plain1.from28)
  @@ Numbered("", 208, Plain1.fromD0) @@ Numbered("0xFC ", 0, Extended) @@ Numbered("0xFD ", 0, Vector)
===============================================================================
