------------------------------ MODULE WasmInstr ------------------------------
(***************************************************************************)
(* The signatures of WebAssembly's plain instructions, written from the    *)
(* structure of the WebAssembly core specification (one row per family),   *)
(* not from the implementation's table.                                    *)
(*   imm : the immediates the text format writes after the mnemonic        *)
(*   p,r : the value types popped (first = deepest) and pushed;            *)
(*         "any" marks a position the specification leaves polymorphic or  *)
(*         whose type depends on a declaration (locals, globals, tables).  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Sig(i, p, r) == [imm |-> i, p |-> p, r |-> r]
Fam(names, sig) == [n \in names |-> sig]
Dot(t, ops) == {t \o "." \o o : o \in ops}
Cross(as, bs) == {a \o b : a \in as, b \in bs}

IT == {"i32", "i64"}
FT == {"f32", "f64"}

IUn == {"clz", "ctz", "popcnt", "extend8_s", "extend16_s"}
IBin == {"add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor",
         "shl", "shr_s", "shr_u", "rotl", "rotr"}
IRel == {"eq", "ne", "lt_s", "lt_u", "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u"}
FUn == {"abs", "neg", "ceil", "floor", "trunc", "nearest", "sqrt"}
FBin == {"add", "sub", "mul", "div", "min", "max", "copysign"}
FRel == {"eq", "ne", "lt", "gt", "le", "ge"}
SX == {"_s", "_u"}

Numeric(t) ==
  IF t \in IT
  THEN Fam(Dot(t, IUn), Sig(<<>>, <<t>>, <<t>>))
    @@ Fam(Dot(t, IBin), Sig(<<>>, <<t, t>>, <<t>>))
    @@ Fam(Dot(t, IRel), Sig(<<>>, <<t, t>>, <<"i32">>))
    @@ Fam({t \o ".eqz"}, Sig(<<>>, <<t>>, <<"i32">>))
    @@ Fam({t \o ".const"}, Sig(<<t>>, <<>>, <<t>>))
  ELSE Fam(Dot(t, FUn), Sig(<<>>, <<t>>, <<t>>))
    @@ Fam(Dot(t, FBin), Sig(<<>>, <<t, t>>, <<t>>))
    @@ Fam(Dot(t, FRel), Sig(<<>>, <<t, t>>, <<"i32">>))
    @@ Fam({t \o ".const"}, Sig(<<t>>, <<>>, <<t>>))

\* conversions: the mnemonic is  <to>.<op>_<from>[_sx]
Conversions ==
     Fam({"i32.wrap_i64"}, Sig(<<>>, <<"i64">>, <<"i32">>))
  @@ Fam(Cross({"i64.extend_i32"}, SX), Sig(<<>>, <<"i32">>, <<"i64">>))
  @@ Fam({"i64.extend32_s"}, Sig(<<>>, <<"i64">>, <<"i64">>))
  @@ Fam(Cross({"i32.trunc_f32", "i32.trunc_sat_f32"}, SX), Sig(<<>>, <<"f32">>, <<"i32">>))
  @@ Fam(Cross({"i32.trunc_f64", "i32.trunc_sat_f64"}, SX), Sig(<<>>, <<"f64">>, <<"i32">>))
  @@ Fam(Cross({"i64.trunc_f32", "i64.trunc_sat_f32"}, SX), Sig(<<>>, <<"f32">>, <<"i64">>))
  @@ Fam(Cross({"i64.trunc_f64", "i64.trunc_sat_f64"}, SX), Sig(<<>>, <<"f64">>, <<"i64">>))
  @@ Fam(Cross({"f32.convert_i32"}, SX), Sig(<<>>, <<"i32">>, <<"f32">>))
  @@ Fam(Cross({"f32.convert_i64"}, SX), Sig(<<>>, <<"i64">>, <<"f32">>))
  @@ Fam(Cross({"f64.convert_i32"}, SX), Sig(<<>>, <<"i32">>, <<"f64">>))
  @@ Fam(Cross({"f64.convert_i64"}, SX), Sig(<<>>, <<"i64">>, <<"f64">>))
  @@ Fam({"f32.demote_f64"}, Sig(<<>>, <<"f64">>, <<"f32">>))
  @@ Fam({"f64.promote_f32"}, Sig(<<>>, <<"f32">>, <<"f64">>))
  @@ Fam({"i32.reinterpret_f32"}, Sig(<<>>, <<"f32">>, <<"i32">>))
  @@ Fam({"i64.reinterpret_f64"}, Sig(<<>>, <<"f64">>, <<"i64">>))
  @@ Fam({"f32.reinterpret_i32"}, Sig(<<>>, <<"i32">>, <<"f32">>))
  @@ Fam({"f64.reinterpret_i64"}, Sig(<<>>, <<"i64">>, <<"f64">>))

Load(t, widths) ==
     Fam({t \o ".load"}, Sig(<<"memarg">>, <<"i32">>, <<t>>))
  @@ Fam(Cross({t \o ".load" \o w : w \in widths}, SX), Sig(<<"memarg">>, <<"i32">>, <<t>>))
Store(t, widths) ==
  Fam({t \o ".store" \o w : w \in widths \cup {""}}, Sig(<<"memarg">>, <<"i32", t>>, <<>>))

Memory ==
     Load("i32", {"8", "16"}) @@ Load("i64", {"8", "16", "32"})
  @@ Load("f32", {}) @@ Load("f64", {})
  @@ Store("i32", {"8", "16"}) @@ Store("i64", {"8", "16", "32"})
  @@ Store("f32", {}) @@ Store("f64", {})
  @@ Fam({"memory.size"}, Sig(<<>>, <<>>, <<"i32">>))
  @@ Fam({"memory.grow"}, Sig(<<>>, <<"i32">>, <<"i32">>))
  @@ Fam({"memory.fill", "memory.copy"}, Sig(<<>>, <<"i32", "i32", "i32">>, <<>>))
  @@ Fam({"memory.init"}, Sig(<<"data">>, <<"i32", "i32", "i32">>, <<>>))
  @@ Fam({"data.drop"}, Sig(<<"data">>, <<>>, <<>>))

Tables ==
     Fam({"table.get"}, Sig(<<"table">>, <<"i32">>, <<"any">>))
  @@ Fam({"table.set"}, Sig(<<"table">>, <<"i32", "any">>, <<>>))
  @@ Fam({"table.size"}, Sig(<<"table">>, <<>>, <<"i32">>))
  @@ Fam({"table.grow"}, Sig(<<"table">>, <<"any", "i32">>, <<"i32">>))
  @@ Fam({"table.fill"}, Sig(<<"table">>, <<"i32", "any", "i32">>, <<>>))
  @@ Fam({"table.copy"}, Sig(<<"table", "table">>, <<"i32", "i32", "i32">>, <<>>))
  @@ Fam({"table.init"}, Sig(<<"table", "elem">>, <<"i32", "i32", "i32">>, <<>>))
  @@ Fam({"elem.drop"}, Sig(<<"elem">>, <<>>, <<>>))

Variables ==
     Fam({"local.get"}, Sig(<<"local">>, <<>>, <<"any">>))
  @@ Fam({"local.set"}, Sig(<<"local">>, <<"any">>, <<>>))
  @@ Fam({"local.tee"}, Sig(<<"local">>, <<"any">>, <<"any">>))
  @@ Fam({"global.get"}, Sig(<<"global">>, <<>>, <<"any">>))
  @@ Fam({"global.set"}, Sig(<<"global">>, <<"any">>, <<>>))

Parametric ==
     Fam({"drop"}, Sig(<<>>, <<"any">>, <<>>))
  @@ Fam({"select"}, Sig(<<>>, <<"any", "any", "i32">>, <<"any">>))
  @@ Fam({"ref.null"}, Sig(<<"heap">>, <<>>, <<"any">>))
  @@ Fam({"ref.is_null"}, Sig(<<>>, <<"any">>, <<"i32">>))
  @@ Fam({"ref.func"}, Sig(<<"func">>, <<>>, <<"funcref">>))

\* ---- SIMD ----------------------------------------------------------------
V == "v128"
IShape == {"i8x16", "i16x8", "i32x4", "i64x2"}
FShape == {"f32x4", "f64x2"}
Unpacked(s) == IF s \in {"i8x16", "i16x8", "i32x4"} THEN "i32"
               ELSE IF s = "i64x2" THEN "i64" ELSE IF s = "f32x4" THEN "f32" ELSE "f64"
Lanes(s) ==
     Fam({s \o ".splat"}, Sig(<<>>, <<Unpacked(s)>>, <<V>>))
  @@ Fam(IF s \in {"i8x16", "i16x8"} THEN Cross({s \o ".extract_lane"}, SX)
         ELSE {s \o ".extract_lane"}, Sig(<<"lane">>, <<V>>, <<Unpacked(s)>>))
  @@ Fam({s \o ".replace_lane"}, Sig(<<"lane">>, <<V, Unpacked(s)>>, <<V>>))
VTest == Fam({"v128.any_true"} \cup Cross(IShape, {".all_true", ".bitmask"}), Sig(<<>>, <<V>>, <<"i32">>))
VShift == Fam(Cross(IShape, {".shl", ".shr_s", ".shr_u"}), Sig(<<>>, <<V, "i32">>, <<V>>))
Half(s) == IF s = "i16x8" THEN "i8x16" ELSE IF s = "i32x4" THEN "i16x8" ELSE "i32x4"
VUnary ==
  {"v128.not", "i8x16.popcnt", "f32x4.demote_f64x2_zero", "f64x2.promote_low_f32x4"}
  \cup Cross(IShape \cup FShape, {".abs", ".neg"})
  \cup Cross(FShape, {".sqrt", ".ceil", ".floor", ".trunc", ".nearest"})
  \cup UNION {Cross({s \o ".extend_low_" \o Half(s), s \o ".extend_high_" \o Half(s)}, SX)
              : s \in {"i16x8", "i32x4", "i64x2"}}
  \cup UNION {Cross({s \o ".extadd_pairwise_" \o Half(s)}, SX) : s \in {"i16x8", "i32x4"}}
  \cup Cross({"i32x4.trunc_sat_f32x4", "f32x4.convert_i32x4", "f64x2.convert_low_i32x4"}, SX)
  \cup {"i32x4.trunc_sat_f64x2_s_zero", "i32x4.trunc_sat_f64x2_u_zero"}
VBinaryAll ==
  {"v128.and", "v128.andnot", "v128.or", "v128.xor", "i8x16.swizzle", "i32x4.dot_i16x8_s",
   "i16x8.q15mulr_sat_s"}
  \cup Cross(IShape, {".add", ".sub", ".eq", ".ne"})
  \cup Cross(Cross({"i8x16", "i16x8", "i32x4"}, {".lt", ".gt", ".le", ".ge", ".min", ".max"}), SX)
  \cup Cross({"i64x2"}, {".lt_s", ".gt_s", ".le_s", ".ge_s"})
  \cup Cross({"i16x8", "i32x4", "i64x2"}, {".mul"})
  \cup Cross(Cross({"i8x16", "i16x8"}, {".add_sat", ".sub_sat"}), SX)
  \cup Cross({"i8x16", "i16x8"}, {".avgr_u"})
  \cup Cross({"i8x16.narrow_i16x8", "i16x8.narrow_i32x4"}, SX)
  \cup UNION {Cross({s \o ".extmul_low_" \o Half(s), s \o ".extmul_high_" \o Half(s)}, SX)
              : s \in {"i16x8", "i32x4", "i64x2"}}
  \cup Cross(FShape, {".add", ".sub", ".mul", ".div", ".min", ".max", ".pmin", ".pmax",
                      ".eq", ".ne", ".lt", ".gt", ".le", ".ge"})
VMemory ==
     Fam({"v128.load", "v128.load32_zero", "v128.load64_zero"}
         \cup Cross(Cross({"v128.load"}, {"8x8", "16x4", "32x2"}), SX)
         \cup Cross(Cross({"v128.load"}, {"8", "16", "32", "64"}), {"_splat"}),
         Sig(<<"memarg">>, <<"i32">>, <<V>>))
  @@ Fam({"v128.store"}, Sig(<<"memarg">>, <<"i32", V>>, <<>>))
  @@ Fam(Cross(Cross({"v128.load"}, {"8", "16", "32", "64"}), {"_lane"}),
         Sig(<<"memarg", "lane">>, <<"i32", V>>, <<V>>))
  @@ Fam(Cross(Cross({"v128.store"}, {"8", "16", "32", "64"}), {"_lane"}),
         Sig(<<"memarg", "lane">>, <<"i32", V>>, <<>>))
Simd ==
     Lanes("i8x16") @@ Lanes("i16x8") @@ Lanes("i32x4") @@ Lanes("i64x2")
  @@ Lanes("f32x4") @@ Lanes("f64x2") @@ VTest @@ VShift
  @@ Fam(VUnary, Sig(<<>>, <<V>>, <<V>>)) @@ Fam(VBinaryAll, Sig(<<>>, <<V, V>>, <<V>>))
  @@ Fam({"v128.bitselect"}, Sig(<<>>, <<V, V, V>>, <<V>>))
  @@ Fam({"i8x16.shuffle"}, Sig([i \in 1..16 |-> "lane"], <<V, V>>, <<V>>))
  @@ VMemory

Table == Numeric("i32") @@ Numeric("i64") @@ Numeric("f32") @@ Numeric("f64")
      @@ Conversions @@ Memory @@ Tables @@ Variables @@ Parametric @@ Simd

\* Control instructions whose operands are not described by a fixed signature
\* but whose immediates name something.
Control ==
     Fam({"call", "return_call"}, <<"func">>)
  @@ Fam({"br", "br_if"}, <<"label">>)
  @@ Fam({"br_table"}, <<"label", "label">>)
  @@ Fam({"nop", "unreachable", "return"}, <<>>)
=============================================================================
