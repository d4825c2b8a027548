"""Write the small documents enumerated by spec/MCDoc.tla as abstract documents (gen.Doc)."""
import json
import gen, tlc


def enumerate_words(family, length):
    rc, out = tlc.tlc("MCDoc", env={"FAMILY": family, "LENGTH": str(length)}, workers=8, heap="6g")
    if rc != 0:
        raise tlc.ToolError("TLC on MCDoc (rc %d):\n%s" % (rc, out[-2000:]))
    return sorted((json.loads(s) for s in tlc.tla_strings(out, "@D")), key=json.dumps)


class B:
    def __init__(self):
        self.d = gen.Doc()
        self.d.open("root")

    def lp(self):
        self.d.tok("(", "lp")

    def rp(self):
        self.d.tok(")", "rp")

    def kw(self, s):
        return self.d.tok(s, "kw")

    def named(self, n, v):
        if v:
            n["n"] = v
            n["nt"] = self.d.tok(v, "id")

    def index(self, n, v):
        if v.startswith("$"):
            n["op"].append({"k": "id", "v": v, "t": self.d.tok(v, "id"), "n": 0})
        else:
            n["op"].append({"k": "int", "v": v, "t": self.d.tok(v, "int"), "n": int(v)})

    def group(self, kind, nm, types):
        n = self.d.open(kind)
        self.lp()
        n["kw"] = self.kw(kind)
        self.named(n, nm)
        for t in types:
            n["ty"].append({"v": t, "t": self.d.tok(t, "type")})
        self.rp()
        self.d.close()

    def field(self, kind, nm=""):
        n = self.d.open(kind)
        self.lp()
        n["kw"] = self.kw(kind.lstrip("i") if kind == "ifunc" else kind)
        self.named(n, nm)
        return n

    def end(self):
        self.rp()
        self.d.close()

    def plain(self, m, arg=None, folded=True, wrong=False):
        n = self.d.open("instr", i=m, f=folded)
        if folded:
            self.lp()
        n["kw"] = self.d.tok(m, "instr")
        if arg is not None:
            self.index(n, arg)
        return n

    def leaf(self, m, arg=None, folded=True):
        self.plain(m, arg, folded)
        if folded:
            self.rp()
        self.d.close()

    # -- families --------------------------------------------------------------
    def label(self, words):
        d, st = self.d, []
        self.field("func")
        for k, v in words:
            if k in ("(block", "block", "loop", "(if", "if"):
                f = k[0] == "("
                n = d.open(k.strip("("), f=f)
                if f:
                    self.lp()
                n["kw"] = self.kw(k.strip("("))
                self.named(n, v)
                st.append(k)
                if k == "if":
                    d.open("then")
            elif k == "br":
                # folded where only folded instructions may stand, otherwise by turns
                self.leaf("br", v, st[-1:] == ["(if"] or len(words) % 2 == 0)
            elif k == "(then":
                d.open("then")
                self.lp()
                self.kw("then")
                st[-1] = "(then"
            elif k == "(else":
                self.end()
                d.open("else")
                self.lp()
                self.kw("else")
            elif k == "else":
                d.close()
                d.open("else")
                self.kw("else")
                st[-1] = "if"
            elif k == ")":
                x = st.pop()
                if x == "(then":
                    self.end()
                    self.end()
                elif x == "(block":
                    self.end()
                else:
                    if x == "if":
                        d.close()
                    self.kw("end")
                    d.close()
        self.end()

    def local(self, words):
        d = self.d
        self.field("func")
        words = list(words)
        sig = words.pop(0)[1] if words[0][0] == "sig" else None
        params = [v for k, v in words if k == "param"]
        if sig is not None or params:
            n = d.open("typeuse")
            if sig is not None:
                self.lp()
                n["kw"] = self.kw("type")
                self.index(n, {"0": "$t0", "1": "$t1", "2": "$t2", "x": "$tx"}[sig])
                self.rp()
            for v in params:
                self.param("param", v)
            d.close()
        for k, v in words:
            if k == "local":
                self.param("local", v)
        for k, v in words:
            if k == "local.get":
                self.leaf(k, v, len(words) % 2 == 0)
        self.end()

    def param(self, kind, v):
        self.group(kind, v if v[0] == "$" else "", ["i32"] if v[0] == "$" else ["i64", "f32"][:int(v)])

    def types(self):
        for nm, ts in (("$t0", []), ("$t1", [["f64"]]), ("$t2", [["f64"], ["i32"]])):
            self.field("type", nm)
            n = self.d.open("functype")
            self.lp()
            n["kw"] = self.kw("func")
            for t in ts:
                self.group("param", "", t)
            self.end()
            self.end()

    def fields(self, words):
        """one module"""
        d = self.d
        for k, v in words:
            if k in ("func", "memory", "table", "global", "type"):
                n = self.field(k, v)
                if k in ("memory", "table"):
                    d.open("limits")
                    d.tok("1", "uint")
                    d.close()
                    if k == "table":
                        d.tok("funcref", "type")
                elif k == "global":
                    g = d.open("globaltype")
                    g["ty"].append({"v": "i32", "t": d.tok("i32", "type")})
                    d.close()
                    n = self.plain("i32.const")
                    n["op"].append({"k": "int", "v": "0", "t": d.tok("0", "int"), "n": 0})
                    self.rp()
                    d.close()
                elif k == "type":
                    m = d.open("functype")
                    self.lp()
                    m["kw"] = self.kw("func")
                    self.end()
                self.end()
            elif k == "import":
                d.open("import")
                self.lp()
                self.kw("import")
                d.tok('"m"', "str")
                d.tok('"n"', "str")
                self.field("ifunc", v)
                self.end()
                self.end()
            elif k == "export":
                d.open("export")
                self.lp()
                self.kw("export")
                d.tok('"e"', "str")
                n = d.open("xfunc")
                self.lp()
                self.kw("func")
                self.index(n, v)
                self.end()
                self.end()
            elif k == "(type":
                self.field("func")
                n = d.open("typeuse")
                self.lp()
                n["kw"] = self.kw("type")
                self.index(n, v)
                self.rp()
                d.close()
                self.end()
            else:
                self.field("func")
                self.leaf(k, v)
                self.end()

    def seq(self, words):
        """a typing sequence; functions $f (i32 -> i64) and a local i64 are there"""
        d, st = self.d, []
        self.field("func")
        self.group("local", "$x", ["i64"])
        ARG = {"call": "$f", "local.get": "$x", "br": "0", "br_if": "0"}
        for k, v in words:
            if k == "flat" or k == "(":
                if st and st[-1][0] == "(":
                    d.nodes[st[-1][1] - 1]["op"].append({"k": "node", "v": "", "t": len(d.nodes) + 1, "n": 0})
                n = self.plain(v, ARG.get(v), k == "(")
                if v.endswith(".const"):
                    n["op"].append({"k": "int", "v": "0", "t": d.tok("0", "int"), "n": 0})
                if k == "(":
                    st.append(("(", n["id"]))
                else:
                    d.close()
            elif k == "block":
                n = d.open("block", f=False)
                n["kw"] = self.kw("block")
                if v:
                    d.open("blocktype")
                    self.group("result", "", [v])
                    d.close()
                st.append(("b", n["id"]))
            else:
                x, _ = st.pop()
                if x == "(":
                    self.rp()
                else:
                    self.kw("end")
                d.close()
        self.end()


def make(family, pack, rng, **tr):
    """one document from several enumerated ones: functions of a module, or modules"""
    b = B()
    d = b.d
    if family == "field":
        for words in pack:
            k = next((i for i, x in enumerate(words) if x[0] == "module"), len(words))
            for part in (words[:k], words[k + 1:]):
                if part:
                    b.field("module")
                    b.fields(part)
                    b.end()
    else:
        b.field("module")
        if family == "local":
            b.types()
        if family == "type":
            b.field("func", "$f")
            d.open("typeuse")
            b.group("param", "", ["i32"])
            b.group("result", "", ["i64"])
            d.close()
            b.end()
        for words in pack:
            {"label": b.label, "local": b.local, "type": b.seq}[family](words)
        b.end()
    d.close()
    d.render(gen.trivia_for(d, rng, **tr))
    return d
