#!/usr/bin/env python3
"""Writes known_findings.json: the recorded findings (documents with their abstract syntax, built here by hand) and
the repaired defects (one line per "fix:" commit in /repo)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import gen

FIXED = {  # subject of the commit -> property, what failed
 "resolve hexadecimal and underscore-separated indexes": ("W06", "(local.get 0x1) and (call 1_0) were not resolved"),
 "bind table uses, exported globals and element function indexes": ("W06", "references in (table $t) uses, (export (global $g)) and elem segments had no definition"),
 "resolve labels through then, else and folded operands": ("W06", "br $l inside (then ...), (else ...) or a folded operand did not find its label"),
 "count parameters taken from a type when indexing locals": ("W06", "(func (type $t) (local i32) local.get 1): locals were numbered without the type's parameters"),
 "exclude branches to inner labels from references of a block": ("W07", "references of an outer block contained branches to an inner block with the same label"),
 "report duplicated names of tables and nested labels only": ("W10", "duplicated table names were not reported; sibling labels were"),
 "rename only the identifiers bound to the renamed symbol": ("W08", "renaming a label renamed other blocks' labels and left else/end labels behind"),
 "count columns of LSP positions in UTF-16 code units": ("W06", "positions after a non-ASCII character on a line were off"),
 "compute semantic token deltas from positions": ("W16", "tokens after multi-line or skipped tokens were shifted"),
 "do not panic on unterminated nested block comment": ("W01", "parsing '(; (;' panicked"),
 "keep form feeds and malformed strings in the syntax tree": ("W01", "form feeds and strings with bad escapes were lost or stopped the parser"),
 "report syntax errors with ordered ranges": ("W01", "error ranges had end < start"),
 "report stray tokens after the last module": ("W02", "'(module) )' had no error"),
 "accept underscores in signed hexadecimal floats": ("W02", "-0x1_a.8p1 was rejected"),
 "accept apostrophes in identifiers": ("W02", "$a' was rejected"),
 "end line comments at carriage returns": ("W02", "a line comment swallowed text after a lone CR"),
 "report unterminated string literals": ("W02", "an unterminated string was accepted"),
 "accept several result groups in block types": ("W02", "(block (result i32) (result i32)) was rejected"),
 "keep trivia between params and results when formatting": ("W03", "comments between (param) and (result) were deleted"),
 "keep shared and unshared of limits when formatting": ("W03", "(memory 1 2 shared) lost 'shared'"),
 "apply the last of several content changes": ("W15", "didChange with two full texts kept the first"),
 "respond to requests which are unknown or can't be decoded": ("W15", "unknown methods and undecodable parameters got no response"),
 "don't crash on requests about documents which aren't opened": ("W15", "a request about a document never opened ended the server"),
 "break lines before offsets and element expressions only once when formatting": ("W04", "(data (offset ...)) got a second line break when formatted again"),
 "keep comments at the start of unfolded if branches when formatting": ("W03", "if (;c;) ... lost the comment"),
 "indent as the enclosing line when formatting a range": ("W05", "range formatting of lines indented with tabs, or of a node in the middle of a line, indented the text differently"),
 "accept several inline exports of globals, memories and tables": ("W02", "(memory (export \"a\") (export \"b\") 1) was a syntax error"),
 "don't expect an immediate from every select": ("W11", "(select (a) (b) (c)) was reported as lacking an operand"),
 "expect all lanes of shuffle": ("W11", "(i8x16.shuffle 0 .. 15 (a) (b)): 15 of its lanes were reported as expected instructions"),
 "check all parameters of functions which don't declare them": ("W11", "calls of imported functions and functions with (type $t) only were checked against fewer parameters"),
 "check calls of functions without params and results": ("W11", "operands of a call to (func $f) were not reported"),
 "check immediates of return_call, br_table and v128.load*_zero": ("W12", "(return_call 1.5) and (br_table 0 1.5 ..) were not reported"),
 "allow memory arguments to be omitted or given in two parts": ("W11", "(i32.load (i32.const 0)) and (i32.load offset=1 align=4 (..)) were reported"),
 "don't count operands whose types are unknown": ("W11", "(drop (block (result i32) ..)) was reported as lacking an operand"),
 "don't miss values behind instructions with unknown effect": ("W11", "block (result i32) .. end drop, unreachable drop and a value below the condition of a flat if were reported"),
 "don't offer an if's label in completion of its condition": ("W22", "(if $l (br $l|) (then)): $l was offered, and other labels numbered one too high"),
 "keep comments when splitting and joining groups": ("W14", "(param i32 (;c;) i64) split or joined lost its comments"),
 "don't join a memory argument with the lane behind it": ("W14", "(v128.load8_lane offset =4 7 ..) became offset=47"),
 "check all lanes of shuffle": ("W12", "(i8x16.shuffle 0 1.5 ..) was not reported"),
}


def block(pid, what, secs, t, build):
    d = gen.Doc()
    build(d)
    d.render(build.trivia if hasattr(build, "trivia") else
             ["" if i in (0, len(d.toks)) or d.toks[i - 1]["s"] == "(" or d.toks[i]["s"] == ")" else " "
              for i in range(len(d.toks) + 1)])
    return {"property": pid, "input": d.text, "ask": secs, "t": t, "what": what,
            "toks": d.toks, "nodes": d.nodes, "trivia": d.trivia}


def f1(d):
    d.open("root"); m = d.open("module")
    d.tok("(", "lp"); m["kw"] = d.tok("module", "kw")
    g = d.open("global"); d.tok("(", "lp"); g["kw"] = d.tok("global", "kw")
    t = d.open("globaltype"); t["ty"].append({"v": "i32", "t": d.tok("i32", "type")}); d.close()
    i = d.open("instr", i="i32.const", f=True); d.tok("(", "lp"); i["kw"] = d.tok("i32.const", "instr")
    i["op"].append({"k": "int", "v": "0", "t": d.tok("0", "int"), "n": 0}); d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close()
    f = d.open("func"); d.tok("(", "lp"); f["kw"] = d.tok("func", "kw")
    f["n"] = "$f"; f["nt"] = d.tok("$f", "id")
    d.tok(")", "rp"); d.close()
    f = d.open("func"); d.tok("(", "lp"); f["kw"] = d.tok("func", "kw")
    i = d.open("instr", i="call", f=True); d.tok("(", "lp"); i["kw"] = d.tok("call", "instr")
    i["op"].append({"k": "int", "v": "0", "t": d.tok("0", "int"), "n": 0}); d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close(); d.close()


def f2(d):
    d.open("root"); m = d.open("module")
    d.tok("(", "lp"); m["kw"] = d.tok("module", "kw")
    f = d.open("func"); d.tok("(", "lp"); f["kw"] = d.tok("func", "kw")
    b = d.open("block", f=True); d.tok("(", "lp"); b["kw"] = d.tok("block", "kw")
    i = d.open("instr", i="br", f=True); d.tok("(", "lp"); i["kw"] = d.tok("br", "instr")
    i["op"].append({"k": "int", "v": "1", "t": d.tok("1", "int"), "n": 1}); d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close(); d.close()


def f10(d):
    d.open("root"); m = d.open("module")
    d.tok("(", "lp"); m["kw"] = d.tok("module", "kw")
    d.open("import"); d.tok("(", "lp"); d.tok("import", "kw"); d.tok('"m"', "str"); d.tok('"n"', "str")
    f = d.open("ifunc"); d.tok("(", "lp"); f["kw"] = d.tok("func", "kw")
    d.open("typeuse")
    for ty in ("i32", "i64"):
        x = d.open("param"); d.tok("(", "lp"); x["kw"] = d.tok("param", "kw")
        x["ty"].append({"v": ty, "t": d.tok(ty, "type")}); d.tok(")", "rp"); d.close()
    d.close()
    d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close()
    d.tok(")", "rp"); d.close(); d.close()


KNOWN = [
 block("W26", '(module (import "m" "n" (func (param i32) (par|)))): behind the first clause of an imported function the keywords of module fields are offered instead of param and result', ["words"], 14, f10),
 dict(block("W16", "(module (global i32 (i32.const 0)) (func $f) (func (call 0))): asked for a range that begins within the first line, the first token's column is relative to the range's first token instead of the line (fixed by the repository's snapshots of semantic tokens of a range)", ["semantic"], 2, f1), client=True),
 block("W06", "(module (global i32 (i32.const 0)) (func $f) (func (call 0))): call 0 does not lead to $f, because all fields of a module are numbered in one sequence instead of per index space (the repository's own snapshot tests fix this numbering)", ["definition"], 19, f1),
 block("W09", "(module (func (block (br 1)))): the branch to the function's own label is reported as undefined (fixed by the repository's tests)", ["undef"], 0, f2),
 {"property": "W03", "kind": "format", "opts": {}, "input": "(module (func (export \"a\") (import \"m\" \"n\")))",
  "what": "an inline import of a function written after inline exports is moved before them (fixed by the repository's fixture imports.snap)"},
 {"property": "W02", "kind": "syntax", "input": "(module (func (select (result i32) (i32.const 0) (i32.const 1) (i32.const 2))))",
  "what": "(select (result i32) ..) is reported as a syntax error (the reading of (result ..) as an instruction is fixed by the repository's parser snapshots)"},
 {"property": "W02", "kind": "syntax", "input": "(module (table 0 funcref) (func (call_indirect (param i32) (result f32) (i32.const 0) (i32.const 1))))",
  "what": "call_indirect with a signature but without (type ..) is reported as a syntax error (fixed by the repository's parser snapshots)"},
 {"property": "W02", "kind": "syntax", "input": "(module (func (v128.const f32x4 0 0 0 0)))",
  "what": "v128.const with a shape is reported as a syntax error (the tool has no notion of shapes)"},
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode()
fixed, missing = [], []
for l in log.strip().split("\n"):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if s[5:] not in FIXED:
            missing.append(s)
            continue
        p, w = FIXED[s[5:]]
        fixed.append("fixed: property=%s %s %s" % (p, h, w))
json.dump({"known": KNOWN, "fixed": fixed[::-1]}, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
print(len(fixed), "fixed;", "missing:", missing)
