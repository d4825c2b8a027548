"""Random WebAssembly-text documents with their abstract syntax.

A document is a list of tokens plus a preorder list of abstract nodes (the vocabulary of
spec/WatDoc.tla).  The text is obtained by putting trivia between the tokens, so the generator
knows, independently of the code under test, what every byte of the text is.
"""
import copy, json, os, random

HERE = os.path.dirname(os.path.abspath(__file__))
INSTRS = json.load(open(os.path.join(HERE, "../spec/instrs.json")))
TABLE = INSTRS["table"]
NUM = ["i32", "i64", "f32", "f64"]
VALS = NUM + ["v128", "funcref", "externref"]


class Doc:
    def __init__(self):
        self.toks = []      # {"s": text, "k": kind}
        self.nodes = []     # abstract nodes, ids 1..n in preorder
        self.stack = []

    # -- construction -------------------------------------------------------
    def tok(self, s, k):
        self.toks.append({"s": s, "k": k})
        return len(self.toks)

    def open(self, kind, **kw):
        n = {"k": kind, "p": self.stack[-1] if self.stack else 0, "c": [], "n": "", "nt": 0,
             "kw": 0, "a": len(self.toks) + 1, "z": 0, "op": [], "ty": [], "f": False, "i": "",
             "ends": []}
        n.update(kw)
        self.nodes.append(n)
        i = len(self.nodes)
        n["id"] = i
        if self.stack:
            self.nodes[self.stack[-1] - 1]["c"].append(i)
        self.stack.append(i)
        return n

    def close(self):
        n = self.nodes[self.stack.pop() - 1]
        n["z"] = len(self.toks)
        return n

    # -- text ---------------------------------------------------------------
    def render(self, trivia):
        """trivia: list of len(toks)+1 strings; computes text and token positions."""
        out, pos = [], 0
        b = 0
        for i, t in enumerate(self.toks):
            tr = trivia[i]
            out.append(tr)
            pos += len(tr)
            t["o"] = pos
            out.append(t["s"])
            pos += len(t["s"])
            t["e"] = pos
        out.append(trivia[-1])
        self.trivia = trivia
        self.text = "".join(out)
        return self.text


class Positions:
    """LSP positions (line, UTF-16 column) <-> character offsets of a text."""
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for i, ch in enumerate(text):
            if ch == "\n":
                self.starts.append(i + 1)
        self.ascii = text.isascii()

    def pos(self, off):
        import bisect
        line = bisect.bisect_right(self.starts, off) - 1
        s = self.text[self.starts[line]:off]
        col = len(s) if self.ascii else len(s.encode("utf-16-le")) // 2
        return {"line": line, "character": col}

    def off(self, p):
        line, col = p["line"], p["character"]
        if line >= len(self.starts):
            return None
        st = self.starts[line]
        en = self.starts[line + 1] if line + 1 < len(self.starts) else len(self.text)
        if self.ascii:
            o = st + col
            return o if o <= len(self.text) and (o <= en) else None
        o, c = st, 0
        while c < col:
            if o >= en:
                return None
            c += 2 if ord(self.text[o]) > 0xFFFF else 1
            o += 1
        return o if c == col else None

    def range(self, a, b):
        return {"start": self.pos(a), "end": self.pos(b)}


DEFAULT = dict(
    names=["$a", "$b", "$c", "$d"], p_name=0.7, p_undef=0.08, p_num=0.35, p_hex=0.06,
    fields=(2, 7), instrs=(0, 5), depth=3, p_folded=0.5, p_block=0.25, blocks=True,
    modules=1, p_uniq=0.0, kinds=dict(func=5, type=2, glob=2, memory=1, table=1, imp=2, exp=2,
                                      start=0.5, elem=1, data=1),
    p_ctl=0.0, typed=False, comments=0.0, unicode=False, ws="mixed", straight=False, simd=True,
    p_modname=0.3, elem_refs=True, p_wrongimm=0.0, p_if_label_in_cond=True, p_std_ix=0.15, import_first=False, wide=False,
)


class G:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.c = dict(DEFAULT)
        self.c.update(cfg)
        self.d = Doc()
        self.uniq = 0

    # -- helpers ------------------------------------------------------------
    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def wpick(self, w):
        ks = list(w)
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def name(self):
        if self.c["p_uniq"] and self.chance(self.c["p_uniq"]):
            self.uniq += 1
            return "$u%d" % self.uniq
        return self.pick(self.c["names"])

    def lp(self):
        return self.d.tok("(", "lp")

    def rp(self):
        return self.d.tok(")", "rp")

    def kw(self, s):
        return self.d.tok(s, "kw")

    def opt_name(self, n, nm):
        if nm:
            n["n"] = nm
            n["nt"] = self.d.tok(nm, "id")

    def string(self):
        pool = ["\"\"", "\"a\"", "\"m\"", "\"f g\"", "\"\\00\\ff\"", "\"x\\n\\t\\\"y\"", "\"\\u{1f600}\"",
                "\"; not a comment\"", "\"(func)\"", "\"$a\"", "\"(; ;)\"", "\"a\\\\\""]
        if self.c["unicode"]:
            pool += ["\"é\"", "\"漢字\"", "\"😀x\""]
        return self.d.tok(self.pick(pool), "str")

    def uint(self):
        return self.d.tok(self.pick(["0", "1", "2", "10", "0x1", "1_0", "0xA_f"]), "uint")

    def index_in(self, n, space, env):
        """an index token (name or number) for `space`; appended to n.op"""
        defs = env.get(space, [])
        cands = [x for x in defs if x]
        lo = 0
        if self.chance(self.c["p_undef"]):
            if self.chance(0.5):
                v = self.pick(self.c["names"] + ["$zz", "$undefined"])
                n["op"].append({"k": "id", "v": v, "t": self.d.tok(v, "id"), "n": 0})
            else:
                k = len(defs) + self.r.randrange(0, 3)
                self._num(n, k)
        elif defs and (not cands or self.chance(self.c["p_num"])):
            self._num(n, self.number(env, space, self.r.randrange(len(defs))))
        elif cands:
            v = self.pick(cands)
            n["op"].append({"k": "id", "v": v, "t": self.d.tok(v, "id"), "n": 0})
        else:
            v = self.pick(self.c["names"])
            n["op"].append({"k": "id", "v": v, "t": self.d.tok(v, "id"), "n": 0})

    def number(self, env, space, i):
        """the number the tool gives the i-th definition of a space (see finding F1)"""
        if space in env.get("fix", {}) and not self.chance(self.c["p_std_ix"]):
            return env["fix"][space][i]
        return i

    def _num(self, n, k):
        s = str(k)
        if self.chance(self.c["p_hex"]):
            # a reference is a number however it is spelt
            s = self.pick([hex(k), "0x%X" % k, "0x0%x" % k, "0x0_%x" % k, "0_%d" % k, "0%d" % k, "_".join(str(k)), "0x" + "_".join("%x" % k)])
        n["op"].append({"k": "int", "v": s, "t": self.d.tok(s, "int"), "n": k})

    # -- types --------------------------------------------------------------
    def valty(self, n, t=None):
        t = t or (self.pick(NUM) if self.chance(0.8) else self.pick(VALS))
        n["ty"].append({"v": t, "t": self.d.tok(t, "type")})
        return t

    def param_like(self, kind, named, count, types=None):
        n = self.d.open(kind)
        self.lp()
        n["kw"] = self.kw(kind)
        if named:
            self.opt_name(n, named)
            self.valty(n, types[0] if types else None)
        else:
            for i in range(count):
                self.valty(n, types[i] if types else None)
        self.rp()
        self.d.close()
        return n

    def split_groups(self, types, can_name):
        """partition a type list into param groups; each group a name or a run"""
        out, i = [], 0
        while i < len(types):
            if can_name and self.chance(self.c["p_name"]):
                out.append((self.name(), [types[i]]))
                i += 1
            else:
                k = self.r.randrange(1, len(types) - i + 1)
                out.append((None, types[i:i + k]))
                i += k
        if self.chance(0.05):
            out.insert(self.r.randrange(len(out) + 1), (None, []))
        return out

    def sig(self):
        mk = lambda k: [self.pick(NUM) if self.chance(0.85) else self.pick(VALS) for _ in range(k)]
        return mk(self.r.choice([0, 0, 1, 1, 2, 3])), mk(self.r.choice([0, 0, 1, 1, 2]))

    def emit_sig(self, ps, rs, can_name=True):
        for nm, ts in self.split_groups(ps, can_name):
            self.param_like("param", nm, len(ts), ts)
        if rs:
            if self.chance(0.3) and len(rs) > 1:
                for t in rs:
                    self.param_like("result", None, 1, [t])
            else:
                self.param_like("result", None, len(rs), rs)

    def typeuse(self, env, ps, rs, can_name=True, tyidx=None, inline=True):
        """emit a typeuse node if it has content"""
        if tyidx is None and not (inline and (ps or rs)):
            return
        n = self.d.open("typeuse")
        if tyidx is not None:
            self.lp()
            n["kw"] = self.kw("type")
            if tyidx == "any":
                self.index_in(n, "type", env)
            else:
                nm = env["type"][tyidx]
                if nm and not self.chance(self.c["p_num"]):
                    n["op"].append({"k": "id", "v": nm, "t": self.d.tok(nm, "id"), "n": 0})
                else:
                    self._num(n, self.number(env, "type", tyidx))
            self.rp()
        if inline:
            self.emit_sig(ps, rs, can_name)
        self.d.close()

    def limits(self):
        n = self.d.open("limits")
        self.uint()
        if self.chance(0.4):
            self.uint()
        if self.chance(0.1):
            self.d.tok(self.pick(["shared", "unshared"]), "share")
        self.d.close()

    def reftype(self):
        return self.d.tok(self.pick(["funcref", "externref"]), "type")

    def globaltype(self, t=None):
        n = self.d.open("globaltype")
        if self.chance(0.4):
            self.lp()
            self.kw("mut")
            self.valty(n, t)
            self.rp()
        else:
            self.valty(n, t)
        self.d.close()

    # -- inline import / export ----------------------------------------------
    def inl_export(self):
        n = self.d.open("inlexport")
        self.lp(); self.kw("export"); self.string(); self.rp()
        self.d.close()

    def inl_import(self):
        n = self.d.open("inlimport")
        self.lp(); self.kw("import"); self.string(); self.string(); self.rp()
        self.d.close()

    # -- module -------------------------------------------------------------
    def document(self):
        d = self.d
        d.open("root")
        k = self.c["modules"]
        if isinstance(k, tuple):
            k = self.r.randint(*k)
        for _ in range(k):
            self.module()
        d.close()
        return d

    def module(self):
        d = self.d
        n = d.open("module")
        self.lp()
        n["kw"] = self.kw("module")
        if self.chance(self.c["p_modname"]):
            self.opt_name(n, self.name())
        # plan the fields first: forward references are legal
        nf = self.r.randint(*self.c["fields"])
        kinds = [self.wpick(self.c["kinds"]) for _ in range(nf)]
        kinds.sort(key=lambda x: 0 if x == "imp" else 1)
        env = {s: [] for s in ("func", "type", "global", "memory", "table", "data", "elem")}
        env["sigs"] = []
        env["types"] = []
        env["gtypes"] = []
        env["fix"] = {s: [] for s in ("func", "type", "global", "memory", "table")}
        plan = []
        fno = 0
        for k in kinds:
            nm = self.name() if self.chance(self.c["p_name"]) else None
            it = {"k": k, "n": nm}
            if k == "imp":
                it["d"] = self.wpick(dict(func=4, glob=2, memory=1, table=1))
                k = it["d"]
                it["imp"] = True
            if k == "func":
                env["func"].append(nm)
                it["sig"] = self.sig()
                it["ix"] = len(env["sigs"])
                env["sigs"].append(it["sig"])
            elif k == "type":
                env["type"].append(nm)
                it["sig"] = self.sig()
                env["types"].append(it["sig"])
            elif k == "glob":
                env["global"].append(nm)
                it["t"] = self.pick(NUM)
                env["gtypes"].append(it["t"])
            elif k in ("memory", "table", "data", "elem"):
                env[k].append(nm)
            sp = {"glob": "global"}.get(k, k)
            if sp in env["fix"]:
                env["fix"][sp].append(fno)
                fno += 1
            plan.append(it)
        # functions may take their signature from a type
        for it in plan:
            if "sig" in it and it["k"] != "type" and env["types"] and self.chance(0.4):
                it["ty"] = self.r.randrange(len(env["types"]))
                it["sig"] = env["types"][it["ty"]]
                env["sigs"][it["ix"]] = it["sig"]
                it["inline"] = self.chance(0.4)
        for it in plan:
            getattr(self, "f_" + it["k"])(it, env)
        self.rp()
        d.close()

    def func_typeuse(self, it, env):
        ps, rs = it["sig"]
        if "ty" in it:
            self.typeuse(env, ps, rs, tyidx=it["ty"], inline=it["inline"])
        else:
            self.typeuse(env, ps, rs)

    def f_imp(self, it, env):
        d = self.d
        d.open("import")
        self.lp(); self.kw("import"); self.string(); self.string()
        n = d.open({"func": "ifunc", "glob": "iglobal", "memory": "imemory", "table": "itable"}[it["d"]])
        self.lp()
        n["kw"] = self.kw({"glob": "global"}.get(it["d"], it["d"]))
        self.opt_name(n, it["n"])
        if it["d"] == "func":
            self.func_typeuse(it, env)
        elif it["d"] == "glob":
            self.globaltype(it["t"])
        elif it["d"] == "memory":
            self.limits()
        else:
            self.limits(); self.reftype()
        self.rp()
        d.close()
        self.rp()
        d.close()

    def f_type(self, it, env):
        d = self.d
        n = d.open("type")
        self.lp()
        n["kw"] = self.kw("type")
        self.opt_name(n, it["n"])
        m = d.open("functype")
        self.lp(); self.kw("func")
        ps, rs = it["sig"]
        self.emit_sig(ps, rs)
        self.rp()
        d.close()
        self.rp()
        d.close()

    def f_glob(self, it, env):
        d = self.d
        n = d.open("global")
        self.lp()
        n["kw"] = self.kw("global")
        self.opt_name(n, it["n"])
        for _ in range(self.r.choice([0] * 12 + [1, 1, 2])):
            self.inl_export()
        self.globaltype(it["t"])
        fx = dict(env, local=[], label=[])
        if self.chance(0.15) and env["global"]:
            self.plain("global.get", fx, self.chance(0.5), [])
        else:
            self.plain(it["t"] + ".const", fx, self.chance(0.7), [])
        self.rp()
        d.close()

    def f_memory(self, it, env):
        d = self.d
        n = d.open("memory")
        self.lp()
        n["kw"] = self.kw("memory")
        self.opt_name(n, it["n"])
        for _ in range(self.r.choice([0] * 12 + [1, 1, 2])):
            self.inl_export()
        if self.chance(0.15):
            self.inl_import()
        if self.chance(0.2):
            d.open("inldata")
            self.lp(); self.kw("data")
            for _ in range(self.r.randrange(3)):
                self.string()
            self.rp()
            d.close()
        else:
            self.limits()
        self.rp()
        d.close()

    def f_table(self, it, env):
        d = self.d
        n = d.open("table")
        self.lp()
        n["kw"] = self.kw("table")
        self.opt_name(n, it["n"])
        for _ in range(self.r.choice([0] * 12 + [1, 1, 2])):
            self.inl_export()
        if self.chance(0.15):
            self.inl_import()
        if self.chance(0.25):
            self.reftype()
            m = d.open("inlelem")
            self.lp(); self.kw("elem")
            if self.chance(0.5):
                for _ in range(self.r.randrange(3)):
                    self.index_in(m, "func", env)
            else:
                for _ in range(self.r.randrange(1, 3)):
                    self.elemexpr(env)
            self.rp()
            d.close()
        else:
            self.limits(); self.reftype()
        self.rp()
        d.close()

    def elemexpr(self, env):
        d = self.d
        d.open("elemexpr")
        fx = dict(env, local=[], label=[])
        if self.chance(0.5):
            self.lp(); self.kw("item")
            self.plain(self.pick(["ref.func", "ref.null"]), fx, self.chance(0.5), [])
            self.rp()
        else:
            self.plain(self.pick(["ref.func", "ref.null"]), fx, True, [])
        d.close()

    def elemlist(self, env, force_kw):
        d = self.d
        m = d.open("elemlist")
        if self.chance(0.6):
            if force_kw or self.chance(0.7):
                self.kw("func")
                k = self.r.randrange(3)
            else:
                k = self.r.randrange(1, 3)
            for _ in range(k):
                self.index_in(m, "func", env)
        else:
            self.reftype()
            for _ in range(self.r.randrange(3)):
                self.elemexpr(env)
        d.close()

    def offset(self, env):
        d = self.d
        d.open("offset")
        fx = dict(env, local=[], label=[])
        if self.chance(0.5):
            self.lp(); self.kw("offset")
            self.plain("i32.const", fx, self.chance(0.5), [])
            self.rp()
        else:
            self.plain("i32.const", fx, True, [])
        d.close()

    def f_elem(self, it, env):
        d = self.d
        n = d.open("elem")
        self.lp()
        n["kw"] = self.kw("elem")
        self.opt_name(n, it["n"])
        form = self.r.randrange(3)
        if form == 0:
            self.kw("declare")
            self.elemlist(env, True)
        elif form == 1:
            self.elemlist(env, True)
        else:
            if self.chance(0.4):
                m = d.open("tableuse")
                self.lp(); self.kw("table")
                self.index_in(m, "table", env)
                self.rp()
                d.close()
            self.offset(env)
            self.elemlist(env, False)
        self.rp()
        d.close()

    def f_data(self, it, env):
        d = self.d
        n = d.open("data")
        self.lp()
        n["kw"] = self.kw("data")
        self.opt_name(n, it["n"])
        if self.chance(0.6):
            if self.chance(0.5):
                m = d.open("memuse")
                self.lp(); self.kw("memory")
                self.index_in(m, "memory", env)
                self.rp()
                d.close()
            self.offset(env)
        for _ in range(self.r.randrange(3)):
            self.string()
        self.rp()
        d.close()

    def f_exp(self, it, env):
        d = self.d
        d.open("export")
        self.lp(); self.kw("export"); self.string()
        k = self.wpick(dict(func=4, table=1, memory=1, **{"global": 1}))
        m = d.open("x" + k)
        self.lp(); self.kw(k)
        self.index_in(m, k, env)
        self.rp()
        d.close()
        self.rp()
        d.close()

    def f_start(self, it, env):
        d = self.d
        m = d.open("start")
        self.lp()
        m["kw"] = self.kw("start")
        self.index_in(m, "func", env)
        self.rp()
        d.close()

    def f_func(self, it, env):
        d = self.d
        n = d.open("func")
        self.lp()
        n["kw"] = self.kw("func")
        self.opt_name(n, it["n"])
        imported = self.chance(0.05)
        first = imported and self.c["import_first"]
        if first:
            self.inl_import()
        for _ in range(self.r.choice([0, 0, 0, 1, 2])):
            self.inl_export()
        if imported and not first:
            self.inl_import()
        before = len(d.nodes)
        self.func_typeuse(it, env)
        locs = []
        ltypes = []
        for m in d.nodes[before:]:
            if m["k"] == "param":
                locs += [m["n"]] if m["n"] else [None] * len(m["ty"])
                ltypes += [t["v"] for t in m["ty"]]
        if "ty" in it and not it.get("inline"):
            locs += [None] * len(it["sig"][0])
            ltypes += it["sig"][0]
        if not imported:
            for _ in range(self.r.randrange(4, 14) if self.c["wide"] else self.r.choice([0, 0, 1, 2])):
                nm = self.name() if self.chance(self.c["p_name"]) else None
                k = 1 if nm else self.r.choice([0, 1, 1, 2, 3])
                m = self.param_like("local", nm, k)
                locs += [nm] if nm else [None] * k
                ltypes += [t["v"] for t in m["ty"]]
            fx = dict(env, local=locs, label=[], ltypes=ltypes)
            if self.c["straight"]:
                self.straight(fx, it)
            else:
                self.body(fx, self.c["depth"])
        self.rp()
        d.close()

    # -- instructions --------------------------------------------------------
    def body(self, env, depth):
        for _ in range(self.r.randint(*self.c["instrs"])):
            self.any_instr(env, depth, self.chance(self.c["p_folded"]))

    REFS = ["call", "call", "call", "local.get", "local.get", "local.set", "local.tee", "global.get",
            "global.set", "ref.func", "return_call", "table.get", "table.set", "table.size",
            "table.grow", "table.fill", "table.copy", "table.init"]

    def any_instr(self, env, depth, folded):
        if depth > 0 and self.c["blocks"] and self.chance(self.c["p_block"]):
            return self.block(env, depth - 1, folded)
        x = self.r.random()
        if x < 0.45:
            nm = self.pick(self.REFS)
        elif x < 0.6 and env["label"]:
            nm = self.pick(["br", "br", "br_if", "br_table"])
        elif x < 0.65:
            nm = self.pick(["nop", "unreachable", "return", "drop"])
        elif x < 0.69:
            nm = "call_indirect"
        else:
            nm = self.pick(list(TABLE))
        kids = 0
        if folded and depth > 0:
            if nm in TABLE:
                kids = len(TABLE[nm]["p"])
            elif nm == "call":
                kids = self.r.randrange(3)
            elif nm in ("br_if", "br_table", "call_indirect"):
                kids = 1
            if self.chance(0.15):
                kids = self.r.randrange(3)
        self.plain(nm, env, folded, [lambda: self.any_instr(env, depth - 1, True)] * kids)

    def imm(self, n, kind, env):
        d = self.d
        if kind in ("func", "local", "global", "table", "data", "elem", "label"):
            self.index_in(n, kind, env)
        elif kind == "memarg":
            x = self.r.random()
            both = [self.pick(["offset=0", "offset=4", "offset=0x10"]), self.pick(["align=4", "align=1"])]
            for s in [] if x < 0.3 else both if x < 0.5 else both[:1] if x < 0.8 else both[1:]:
                n["op"].append({"k": "memarg", "v": s, "t": d.tok(s, "memarg"), "n": 0})
        elif kind == "lane":
            k = self.r.randrange(16)
            n["op"].append({"k": "int", "v": str(k), "t": d.tok(str(k), "int"), "n": k})
        elif kind in ("i32", "i64"):
            s = self.pick(["0", "1", "-1", "+7", "42", "0x2a", "1_000", "-0xF_f"])
            n["op"].append({"k": "int", "v": s, "t": d.tok(s, "int"), "n": 0})
        elif kind in ("f32", "f64"):
            s = self.pick(["0", "1.5", "-1.", "1e3", "2.5e-7", "0x1p3", "0x1.8p-2", "inf", "-inf", "nan",
                           "nan:0x400", "1_0.2_5", "+nan", "7"])
            k = "int" if s in ("0", "7") else "float"
            n["op"].append({"k": k, "v": s, "t": d.tok(s, k), "n": 0})
        elif kind == "heap":
            s = self.pick(["func", "extern"])
            n["op"].append({"k": "heap", "v": s, "t": d.tok(s, "heap"), "n": 0})

    ANY = [("float", "1.5"), ("str", "\"s\""), ("float", "0x1p3"), ("str", "\"$a\""), ("float", "nan"), ("memarg", "offset=1"), ("memarg", "align=4")]
    NUMS = [("int", "7"), ("int", "0x1f"), ("int", "0")]
    NAMES = [("id", "$a"), ("id", "$q")]
    WRONG = dict(dict.fromkeys(("func", "local", "global", "table", "data", "elem", "label", "lane"), ANY),
                 i32=ANY + NAMES, i64=ANY + NAMES, f32=ANY[1::2] + NAMES, f64=ANY[1::2] + NAMES,
                 memarg=[x for x in ANY if x[0] != "memarg"] + NUMS + NAMES)

    def plain(self, nm, env, folded, kids, imms=None):
        d = self.d
        n = d.open("instr", i=nm, f=folded)
        if folded:
            self.lp()
        n["kw"] = d.tok(nm, "instr")
        if nm in TABLE:
            kinds = TABLE[nm]["imm"]
        elif nm == "br_table":
            kinds = ["label"] * self.r.randrange(1, 4)
        elif nm == "call_indirect":
            kinds = []
            if self.chance(0.5) and self.c["elem_refs"]:
                self.imm(n, "table", env)
            if self.chance(0.7):
                before = len(d.nodes)
                self.typeuse(env, [], [], tyidx="any", inline=False)
                n["op"].append({"k": "node", "v": "", "t": before + 1, "n": 0})
        else:
            kinds = INSTRS["control"].get(nm, [])
        for k in (imms if imms is not None else kinds):
            if self.c["p_wrongimm"] and self.chance(self.c["p_wrongimm"]) and k in self.WRONG:
                c, s = self.pick(self.WRONG[k])
                n["op"].append({"k": c, "v": s, "t": d.tok(s, c), "n": 0})
            else:
                self.imm(n, k, env)
        for kid in kids:
            before = len(d.nodes)
            kid()
            n["op"].append({"k": "node", "v": "", "t": before + 1, "n": 0})
        if folded:
            self.rp()
        d.close()

    def blocktype(self, env):
        x = self.r.random()
        d = self.d
        if x < 0.5:
            return
        n = d.open("blocktype")
        if x < 0.75:
            self.param_like("result", None, self.r.randrange(1, 3))
        elif x < 0.9 and env["type"]:
            self.typeuse(env, [], [], tyidx=self.r.randrange(len(env["type"])), inline=False)
        else:
            self.typeuse(env, [self.pick(NUM)], [self.pick(NUM)], can_name=False)
        d.close()

    def block(self, env, depth, folded):
        d = self.d
        kind = self.pick(["block", "loop", "if"])
        nm = self.name() if self.chance(self.c["p_name"]) else None
        n = d.open(kind, f=folded)
        if folded:
            self.lp()
        n["kw"] = self.kw(kind)
        self.opt_name(n, nm)
        self.blocktype(env)
        inner = dict(env, label=[nm] + env["label"])
        if kind == "if":
            if folded:
                outer = env if self.c["p_if_label_in_cond"] else dict(env, label=[])
                for _ in range(self.r.choice([0, 1, 1, 1])):
                    self.any_instr(outer, min(depth, 1), True)
                d.open("then")
                self.lp(); self.kw("then")
                self.body(inner, depth)
                self.rp()
                d.close()
                if self.chance(0.5):
                    d.open("else")
                    self.lp(); self.kw("else")
                    self.body(inner, depth)
                    self.rp()
                    d.close()
                self.rp()
            else:
                d.open("then")
                self.body(inner, depth)
                d.close()
                if self.chance(0.5):
                    e = d.open("else")
                    self.kw("else")
                    if nm and self.chance(0.2):
                        n["ends"].append(d.tok(nm, "id"))
                    self.body(inner, depth)
                    d.close()
                self.kw("end")
                if nm and self.chance(0.2):
                    n["ends"].append(d.tok(nm, "id"))
        else:
            self.body(inner, depth)
            if folded:
                self.rp()
            else:
                self.kw("end")
                if nm and self.chance(0.2):
                    n["ends"].append(d.tok(nm, "id"))
        d.close()

    # -- straight-line, mostly well-typed code --------------------------------
    BYRES = None

    def expr(self, env, want, depth):
        """a folded expression producing one value of type `want` (perturbed sometimes)"""
        if self.chance(0.04):
            want = self.pick(NUM + ["v128"])
        opts = []
        if want in NUM:
            opts.append(lambda: self.plain(want + ".const", env, True, []))
        locs = [i for i, t in enumerate(env["ltypes"]) if t == want]
        if locs:
            opts.append(lambda: self.getter("local.get", self.pick(locs), env["local"], True, env))
        gs = [i for i, t in enumerate(env["gtypes"]) if t == want]
        if gs:
            opts.append(lambda: self.getter("global.get", self.pick(gs), env["global"], True, env))
        if depth > 0:
            def comp():
                nm = self.pick(G.byres()[want] or ["nop"])
                ps = TABLE[nm]["p"]
                self.args(nm, env, ps, depth)
            opts += [comp] * 3
            fs = [i for i, s in enumerate(env["sigs"]) if s[1] == [want]]
            if fs:
                def callf():
                    i = self.pick(fs)
                    self.call(env, i, True, depth)
                opts += [callf] * 2
        if not opts:
            if want == "v128":
                opts = [lambda: self.plain("i32x4.splat", env, True,
                                           [lambda: self.plain("i32.const", env, True, [])])]
            else:
                opts = [lambda: self.plain("ref.func" if want == "funcref" else "ref.null", env, True, [])]
        self.pick(opts)()

    @staticmethod
    def byres():
        if G.BYRES is None:
            G.BYRES = {t: [] for t in VALS}
            for n, s in TABLE.items():
                if len(s["r"]) == 1:
                    for t in VALS:
                        if s["r"][0] == t:
                            G.BYRES[t].append(n)
            for t in VALS:
                G.BYRES[t] += ["select", "local.tee"]
            G.BYRES["funcref"] += ["ref.null"]
            G.BYRES["externref"] += ["ref.null"]
        return G.BYRES

    def getter(self, nm, ix, names, folded, env):
        d = self.d
        n = d.open("instr", i=nm, f=folded)
        if folded:
            self.lp()
        n["kw"] = d.tok(nm, "instr")
        if names[ix] and self.chance(0.6):
            n["op"].append({"k": "id", "v": names[ix], "t": d.tok(names[ix], "id"), "n": 0})
        else:
            self._num(n, self.number(env, nm.split(".")[0], ix))
        if folded:
            self.rp()
        d.close()

    def args(self, nm, env, ps, depth):
        k = len(ps)
        if self.chance(0.04):
            k = max(0, k + self.pick([-1, 1]))
        kids = []
        for i in range(k):
            t = ps[i] if i < len(ps) and ps[i] != "any" else self.pick(NUM)
            kids.append(lambda t=t: self.expr(env, t, depth - 1))
        self.plain(nm, env, True, kids)

    def call(self, env, i, folded, depth):
        d = self.d
        n = d.open("instr", i="call", f=folded)
        if folded:
            self.lp()
        n["kw"] = d.tok("call", "instr")
        nm = env["func"][i]
        if nm and self.chance(0.6):
            n["op"].append({"k": "id", "v": nm, "t": d.tok(nm, "id"), "n": 0})
        else:
            self._num(n, self.number(env, "func", i))
        if folded:
            ps = env["sigs"][i][0]
            k = len(ps)
            if self.chance(0.06):
                k = max(0, k + self.pick([-1, 1]))
            for j in range(k):
                before = len(d.nodes)
                self.expr(env, ps[j] if j < len(ps) else self.pick(NUM), max(0, depth - 1))
                n["op"].append({"k": "node", "v": "", "t": before + 1, "n": 0})
            self.rp()
        d.close()

    def straight(self, env, it):
        st = []
        for _ in range(self.r.randint(*self.c["instrs"])):
            if self.c["p_ctl"] and self.chance(self.c["p_ctl"]):
                nm = self.pick(["br_if", "br_if", "nop", "return", "unreachable", "br", "block", "block", "call_indirect", "br_table"])
                if nm == "block":
                    self.block(env, 1, self.chance(0.5))
                elif nm == "br_if" and self.chance(0.4):
                    self.plain(nm, env, True, [lambda: self.expr(env, "i32", 1)])
                else:
                    self.plain(nm, env, False, [])
                    if nm in ("br_if", "call_indirect", "br_table"):
                        del st[-1:]
                continue
            x = self.r.random()
            if x < 0.3:
                # folded statement
                y = self.r.random()
                t = self.pick(NUM + ["v128"])
                if y < 0.4:
                    self.expr(env, t, 2)
                    st.append(t)
                elif y < 0.7:
                    nm = self.pick(list(TABLE))
                    self.args(nm, env, TABLE[nm]["p"], 2)
                    st += TABLE[nm]["r"]
                elif env["sigs"]:
                    i = self.r.randrange(len(env["sigs"]))
                    self.call(env, i, True, 2)
                    st += env["sigs"][i][1]
                continue
            cands = []
            for nm, s in TABLE.items():
                ps = s["p"]
                if len(ps) <= len(st) and all(a == b or "any" in (a, b) for a, b in
                                               zip(ps, st[len(st) - len(ps):])):
                    if ps or self.chance(0.3):
                        cands.append(nm)
            fcands = [i for i, s in enumerate(env["sigs"]) if len(s[0]) <= len(st) and
                      all(a == b or b == "any" for a, b in zip(s[0], st[len(st) - len(s[0]):]))]
            if fcands and self.chance(0.3):
                i = self.pick(fcands)
                self.call(env, i, False, 0)
                del st[len(st) - len(env["sigs"][i][0]):]
                st += env["sigs"][i][1]
            elif self.chance(0.08) or not cands or (len(st) < 3 and self.chance(0.45)):
                if self.chance(0.25):
                    nm = self.pick(list(TABLE))
                else:
                    nm = self.pick(NUM) + ".const"
                self.plain(nm, env, False, [])
                s = TABLE[nm]
                del st[max(0, len(st) - len(s["p"])):]
                st += s["r"]
            else:
                nm = self.pick(cands)
                self.plain(nm, env, False, [])
                s = TABLE[nm]
                del st[len(st) - len(s["p"]):]
                st += s["r"]


# ---------------------------------------------------------------------------
def trivia_for(doc, rng, ws="mixed", comments=0.0, unicode=False, crlf=False, docs=0.0):
    """random trivia between the tokens of a document"""
    n = len(doc.toks)
    out = []
    nl = "\r\n" if crlf else "\n"
    cpool = ["c", "x (y", "(func)", "$a", "\"q", " spaced ", "", "end", ")("]
    if unicode:
        cpool += ["é", "😀 x", "漢"]
    fronts = {x["a"] - 1 for x in doc.nodes if x["k"] in ("func", "import", "ifunc")} if docs else ()
    for i in range(n + 1):
        prev = doc.toks[i - 1]["k"] if i > 0 else None
        nxt = doc.toks[i]["k"] if i < n else None
        need = i not in (0, n) and prev not in ("lp", "rp") and nxt not in ("lp", "rp")
        s = ""
        if ws == "min":
            s = " " if need else ""
        elif ws == "pretty":
            if i in (0, n):
                s = ""
            elif nxt == "lp":
                s = nl + "  " if rng.random() < 0.5 else " "
            else:
                s = " " if need or (nxt != "rp" and prev != "lp") else ""
        else:
            x = rng.random()
            if x < 0.45:
                s = " " if need or rng.random() < 0.3 else ""
            elif x < 0.6:
                s = "  "
            elif x < 0.75:
                s = nl + " " * rng.randrange(4)
            elif x < 0.8:
                s = "\t"
            elif x < 0.83:
                s = nl + nl + " "
            elif x < 0.86:
                s = rng.choice(["  " + nl, "\t" + nl + " ", nl + nl + nl, nl + " " + nl + "\t" + nl + nl, " " + nl + nl + "  "])
            else:
                s = " " if need else ""
        while comments and rng.random() < comments:
            y = rng.random()
            body = rng.choice(cpool)
            if prev == "lp" and s == "":
                s = " "
            if y < 0.5:
                if body in (")(", "x (y", "(func)") and rng.random() < 0.5:
                    body = "(; nested ;)"
                if body.endswith("("):
                    body += " "
                c = "(;" + body + rng.choice(["", " ", nl, nl + "  "]) + ";)"
                s += c + rng.choice(["", " ", nl])
            else:
                c = ";;" + body + rng.choice(["", "  "])
                s += c + nl + rng.choice(["", "  "])
        if i in fronts and rng.random() < docs:
            if prev == "lp" and s == "":
                s = " "
            for _ in range(rng.randrange(1, 6)):
                s += rng.choice([";;; doc %d" % i, ";;;doc %d" % i, ";;;\ttab ", ";;;", ";;;; x ", ";;;  two", ";; plain", ";;",
                                 ";;;" + rng.choice(cpool), "(; block ;)", "", "", "(;;; x ;)"]) + rng.choice(["", "", " "])
                s += nl + rng.choice(["", "  ", nl])
        if need and s == "":
            s = " "
        out.append(s)
    return out


def make(seed, **cfg):
    rng = random.Random(seed)
    tr = {k: cfg.pop(k) for k in ("ws", "comments", "unicode", "crlf", "docs") if k in cfg}
    g = G(rng, unicode=tr.get("unicode", False), **cfg)
    d = g.document()
    d.render(trivia_for(d, rng, **tr))
    return d


def typing(doc, t, s):
    """the document while token t, a reference, is being typed: so far it is s"""
    d = copy.copy(doc)
    cut = doc.toks[t - 1]
    d.text = doc.text[:cut["o"]] + s + doc.text[cut["e"]:]
    k = len(s) - (cut["e"] - cut["o"])
    d.toks = [dict(x) for x in doc.toks]
    d.toks[t - 1].update(s=s, e=cut["e"] + k)
    for x in d.toks[t:]:
        x.update(o=x["o"] + k, e=x["e"] + k)
    d.nodes = [n if all(o["t"] != t for o in n["op"])
               else dict(n, op=[dict(o, k="id", v=s, n=0) if o["t"] == t else o for o in n["op"]]) for n in doc.nodes]
    d.typing = [t]
    return d
