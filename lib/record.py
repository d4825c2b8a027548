"""Drive the real code through sessions and turn what it answers into trace events.

A session is a list of steps
    ("commit", uri, doc)            commit doc.text for uri
    ("ask", uri, doc, sections)     ask every query of the named sections about uri
and yields the events of spec/Trace.tla.  Ranges are projected to token numbers; a range that is not
exactly one token becomes 0.  No judgement is made here.
"""
import random
import driver
from gen import Positions

URI = {"a": "file:///a.wat", "b": "file:///b.wat", "c": "untitled:c"}
SECTIONS = {}


def section(f):
    SECTIONS[f.__name__] = f
    return f


class View:
    """a document and the projections of its positions"""
    def __init__(self, doc, uri):
        self.doc, self.uri = doc, URI[uri]
        self.pos = Positions(doc.text)
        self.byrange = {}
        for i, t in enumerate(doc.toks, 1):
            r = self.pos.range(t["o"], t["e"])
            self.byrange[key(r)] = i

    def tok(self, rng):
        return self.byrange.get(key(rng), 0)

    def span(self, rng):
        """first and last token of a range that begins and ends with tokens (0 otherwise)"""
        if not hasattr(self, "starts"):
            self.starts, self.ends = {}, {}
            for k, i in self.byrange.items():
                self.starts[k[:2]] = self.ends[k[2:]] = i
        k = key(rng)
        a, z = self.starts.get(k[:2], 0), self.ends.get(k[2:], 0)
        return (a, z) if a and z else (0, 0)

    def inner(self, rng):
        """first and last token of a range that cuts no token; white space around them is left aside"""
        a, z = self.pos.off(rng["start"]), self.pos.off(rng["end"])
        if a is None or z is None or any(t["o"] < x < t["e"] for t in self.doc.toks for x in (a, z)):
            return 0, 0
        ins = [i for i, t in enumerate(self.doc.toks, 1) if a <= t["o"] and t["e"] <= z]
        return (ins[0], ins[-1]) if ins else (0, 0)

    def at(self, t):
        """a position on token t: inside it, at its beginning or at its end (its neighbours are then parentheses,
        white space or comments)"""
        tk = self.doc.toks[t - 1]
        where = (t * 7 + len(self.doc.text)) % 4
        o = tk["o"] + len(tk["s"]) // 2
        if tk["k"] not in ("lp", "rp"):
            o = tk["o"] if where == 1 else tk["e"] if where == 2 else o
        return {"textDocument": {"uri": self.uri}, "position": self.pos.pos(o)}

    def td(self):
        return {"textDocument": {"uri": self.uri}}


def key(r):
    return (r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"])


def locs(v, ans):
    """locations of a definition-like answer as tokens (0 for foreign documents or odd ranges)"""
    if ans is None:
        return []
    if isinstance(ans, dict):
        ans = [ans]
    return [v.tok(x["range"]) if x["uri"] == v.uri else 0 for x in ans]


def q(m, p):
    return {"op": "q", "m": m, "p": p}


# -- names -------------------------------------------------------------------
REF_INSTR = {"call": 1, "return_call": 1, "ref.func": 1, "local.get": 1, "local.set": 1, "local.tee": 1,
             "global.get": 1, "global.set": 1, "br": 1, "br_if": 1, "br_table": 99, "table.get": 1,
             "table.set": 1, "table.size": 1, "table.grow": 1, "table.fill": 1, "table.copy": 2,
             "table.init": 1, "call_indirect": 1}
REF_NODE = {"xfunc", "start", "elemlist", "inlelem", "xglobal", "xmemory", "memuse", "xtable",
            "tableuse", "typeuse"}


def ref_tokens(doc):
    out = []
    for n in doc.nodes:
        k = REF_INSTR.get(n["i"], 0) if n["k"] == "instr" else 99 if n["k"] in REF_NODE else 0
        for j, o in enumerate(n["op"]):
            if o["k"] in ("id", "int") and j < k:
                out.append(o["t"])
    return out


def anchor_tokens(doc):
    """tokens that stand for a definition"""
    out = []
    for n in doc.nodes:
        if n["k"] in ("func", "ifunc", "type", "global", "iglobal", "memory", "imemory", "table", "itable",
                      "block", "loop", "if"):
            out.append(n["nt"] or n["kw"])
        elif n["k"] in ("param", "local"):
            up = doc.nodes[n["p"] - 1]
            if n["k"] == "local" or (up["k"] == "typeuse" and doc.nodes[up["p"] - 1]["k"] == "func"):
                if n["nt"]:
                    out.append(n["nt"])
                else:
                    out += [t["t"] for t in n["ty"]]
    return out


@section
def definition(v):
    toks = ref_tokens(v.doc)
    return [q("definition", v.at(t)) for t in toks], \
        lambda rs: {"def": [{"t": t, "r": locs(v, r)} for t, r in zip(toks, rs)]}


@section
def kin(v):
    """declarations and types of what instructions refer to"""
    toks = ref_tokens(v.doc)
    n = len(toks)
    return [q("declaration", v.at(t)) for t in toks] + [q("typeDefinition", v.at(t)) for t in toks], \
        lambda rs: {"kin": [{"t": t, "decl": locs(v, a), "ty": locs(v, b)} for t, a, b in zip(toks, rs[:n], rs[n:])]}


@section
def references(v):
    qs, meta = [], []
    for t in ref_tokens(v.doc) + anchor_tokens(v.doc):
        for incl in (True, False):
            qs.append(q("references", dict(v.at(t), context={"includeDeclaration": incl})))
            meta.append((t, incl))
    return qs, lambda rs: {"refs": [{"t": t, "incl": i, "r": locs(v, r)} for (t, i), r in zip(meta, rs)]}


def edits(v, ans):
    """(tokens, new texts) of a workspace edit"""
    if ans is None:
        return [], []
    ch = ans.get("changes") or {}
    toks, nn = [], []
    for u, es in ch.items():
        for e in es:
            toks.append(v.tok(e["range"]) if u == v.uri else 0)
            nn.append(e["newText"])
    return toks, sorted(set(nn))


# every legal identifier character, and every illegal one (plus other ways of being illegal)
IDCHARS = [chr(c) for c in range(33, 127) if chr(c) not in "\"(),;[]{}"]
NEWNAMES = ["$fresh", "$new_1", "$A.b", "$0"] + ["$x" + "".join(IDCHARS[i::6]) for i in range(6)] + ["$" + c for c in IDCHARS]
BADNAMES = ["fresh", "$", "", "$é", "$a漢", " $a", "$a ", "$\u00a0", "$a\u2028", "#a", "\"$a\""] + \
    ["$a" + chr(c) + "b" for c in range(0, 128) if chr(c) not in IDCHARS] + \
    ["$a" + c for c in "\"(),;[]{} \t\n"]


@section
def rename(v):
    doc = v.doc
    ids = [i for i, t in enumerate(doc.toks, 1) if t["k"] == "id"]
    used = {t["s"] for t in doc.toks}
    seed = sum(map(ord, doc.text))
    qs, meta = [], []
    for j, t in enumerate(ids):
        cand = NEWNAMES[(j + seed) % len(NEWNAMES)]
        while cand in used:
            cand += "_"
        qs.append(q("rename", dict(v.at(t), newName=cand)))
        meta.append((t, cand, True))
    for j, t in enumerate(ids[:4]):
        bad = BADNAMES[(j * 31 + seed) % len(BADNAMES)]
        qs.append(q("rename", dict(v.at(t), newName=bad)))
        meta.append((t, bad, True))
    nonids = [i for i, t in enumerate(doc.toks, 1) if t["k"] not in ("id", "lp", "rp")]
    for t in nonids[len(doc.text) % 7::11]:
        # strictly inside the token, so that no neighbouring identifier is meant
        if len(doc.toks[t - 1]["s"]) >= 2:
            qs.append(q("rename", dict(v.at(t), newName="$fresh")))
            meta.append((t, "$fresh", False))
    n = len(qs)
    ready = ids + nonids[len(doc.text) % 5::9]
    qs += [q("prepareRename", v.at(t)) for t in ready]

    def proj(rs):
        out = []
        for (t, new, isid), r in zip(meta, rs):
            if "err" in r:
                st, toks, nn = "err", [], []
            else:
                st = "none" if r["ok"] is None else "ok"
                toks, nn = edits(v, r["ok"])
            out.append({"t": t, "new": new, "cs": list(new), "isid": isid, "st": st, "r": toks, "nn": nn})
        return {"ren": out, "ready": [{"t": t, "id": doc.toks[t - 1]["k"] == "id", "r": [] if r is None else [v.tok(r)]}
                                      for t, r in zip(ready, rs[n:])]}
    return qs, proj


def diags(r):
    return r["items"] if r else []


def classify(d):
    m = d["message"]
    if m.startswith("syntax error"):
        return "syntax"
    if m.startswith("cannot find"):
        return "undef"
    if m.startswith("duplicated name"):
        return "dup"
    if m.startswith("only one module"):
        return "multi"
    if m.startswith("expected type"):
        return "type"
    if m == "expected instr":
        return "instr"
    if m.startswith("expected ") and ", found " in m:
        return "count"
    return "literal"


@section
def undef(v):
    def proj(rs):
        return {"undef": [v.tok(d["range"]) for d in diags(rs[0]) if classify(d) == "undef"]}
    return [q("pullDiagnostics", v.td())], proj


@section
def dup(v):
    def proj(rs):
        return {"dup": [{"t": v.tok(d["range"]),
                         "rel": [v.tok(x["location"]["range"]) if x["location"]["uri"] == v.uri else 0
                                 for x in d.get("relatedInformation", [])]}
                        for d in diags(rs[0]) if classify(d) == "dup"]}
    return [q("pullDiagnostics", v.td())], proj


def operand_diag(v, d):
    a, z = v.span(d["range"])
    rel = d.get("relatedInformation") or []
    ra, rz = (v.span(rel[0]["location"]["range"]) if rel[0]["location"]["uri"] == v.uri else (0, 0)) if rel else (0, 0)
    k = classify(d)
    if k == "type":
        exp, got = d["message"].split("`")[1::2]
    else:
        w = d["message"].replace(",", "").split()
        exp, got = w[1], w[-1]
    return {"a": a, "z": z, "k": k, "exp": exp, "got": got, "ra": ra, "rz": rz}


@section
def types(v):
    def proj(rs):
        return {"types": [operand_diag(v, d) for d in diags(rs[0]) if classify(d) in ("type", "count")]}
    return [q("pullDiagnostics", v.td())], proj


@section
def literal(v):
    def proj(rs):
        ds = diags(rs[0])
        return {"literal": [{"t": v.tok(d["range"]), "m": d["message"]} for d in ds if classify(d) == "literal"],
                "instr": [v.tok(d["range"]) for d in ds if classify(d) == "instr"],
                "multi": [list(v.span(d["range"])) for d in ds if classify(d) == "multi"]}
    return [q("pullDiagnostics", v.td())], proj


# -- the shape of the text ----------------------------------------------------
TOKEN_CLASSES = ["type", "parameter", "variable", "function", "keyword", "comment", "string", "number", "operator"]


def legends(seed):
    """clients that declare different token types, in different orders"""
    def init(i):
        rng = random.Random("l%d/%d" % (seed, i))
        ts = TOKEN_CLASSES + ["namespace", "class", "macro"]
        rng.shuffle(ts)
        if i % 3 == 0:
            ts = ts[:rng.randrange(len(ts) + 1)]
        return {"processId": None, "rootUri": None, "capabilities": {"textDocument": {"semanticTokens": {
            "requests": {}, "tokenTypes": ts, "tokenModifiers": [], "formats": []}}}}
    return init


def pieces(doc):
    """the text cut into [start, end, what]: tokens (their number), comments ("c"), white space ("w")"""
    out, o = [], 0
    for i, tr in enumerate(doc.trivia):
        j = 0
        while j < len(tr):
            k = j
            if tr.startswith(";;", j):
                while k < len(tr) and tr[k] not in "\r\n":
                    k += 1
                out.append([o + j, o + k, "c"])
            elif tr.startswith("(;", j):
                depth = 0
                while True:
                    if tr.startswith("(;", k):
                        depth, k = depth + 1, k + 2
                    elif tr.startswith(";)", k):
                        depth, k = depth - 1, k + 2
                        if depth == 0:
                            break
                    else:
                        k += 1
                out.append([o + j, o + k, "c"])
            else:
                while k < len(tr) and not tr.startswith((";;", "(;"), k):
                    k += 1
                out.append([o + j, o + k, "w"])
            j = k
        o += len(tr)
        if i < len(doc.toks):
            out.append([doc.toks[i]["o"], doc.toks[i]["e"], i + 1])
            o = doc.toks[i]["e"]
    return out


def utf16(s):
    return len(s.encode("utf-16-le")) // 2


@section
def semantic(v):
    doc = v.doc
    ps = pieces(doc)
    # comments are numbered on from the last token
    known, no = {}, len(doc.toks)
    order = []
    for a, z, k in ps:
        if k == "w":
            continue
        if k == "c":
            no += 1
            k = no
        p = v.pos.pos(a)
        known[(p["line"], p["character"], utf16(doc.text[a:z]))] = k
        order.append((a, z, k))
    n = len(doc.text)
    seed = sum(map(ord, doc.text)) * 2654435761
    cuts = [(0, n)] + [sorted(((seed >> (7 * i)) % (n + 1), (seed >> (5 * i + 3)) % (n + 1))) for i in range(3)]
    qs = [q("semanticTokensFull", v.td())] + \
        [q("semanticTokensRange", dict(v.td(), range=v.pos.range(a, z))) for a, z in cuts]

    def decode(data, base):
        legend = v.inited["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
        out, line, col = [], 0, 0
        for dl, ds, ln, ty, mods in zip(*[iter(data)] * 5):
            line, col = line + dl, ds if dl else col + ds
            if not out and base["line"] == line:
                col = base["character"] + ds
            out.append({"k": known.get((line, col, ln), 0) if mods == 0 else 0, "c": (legend + ["?"] * 9)[ty]})
        return out

    def proj(rs):
        zero = {"line": 0, "character": 0}
        ev = {"sem": decode(rs[0]["data"], zero), "cut": [], "comments": [k for a, z, k in order if k > len(doc.toks)]}
        ev["order"] = [k for a, z, k in order]
        ev["tk"] = [t["k"] for t in doc.toks]
        ev["declared"] = v.init["capabilities"]["textDocument"]["semanticTokens"]["tokenTypes"]
        ev["legend"] = v.inited["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
        for (a, z), r in zip(cuts, rs[1:]):
            base = next((v.pos.pos(p[0]) for p in ps if p[1] > a), zero)
            # what the range covers: tokens with a character in it
            ev["cut"].append({"in": [k for x, y, k in order if y > a and x < z],
                              "std": decode(r["data"], zero), "rel": decode(r["data"], base)})
        return ev
    return qs, proj


@section
def outline(v):
    def flat(xs, up, out):
        for x in xs:
            a, z = v.span(x["range"])
            sa, sz = v.span(x["selectionRange"])
            out.append({"n": x["name"], "k": {2: "module", 12: "func", 13: "var"}.get(x["kind"], "?"), "a": a, "z": z,
                        "sa": sa, "sz": sz, "p": up})
            flat(x.get("children") or [], a, out)
        return out

    def proj(rs):
        roots = sorted(rs[0] or [], key=lambda x: (x["range"]["start"]["line"], x["range"]["start"]["character"]))
        return {"outline": flat(roots, 0, [])}
    return [q("documentSymbol", v.td())], proj


@section
def folding(v):
    def proj(rs):
        out = []
        for x in rs[0] or []:
            out.append(list(v.span({"start": {"line": x["startLine"], "character": x["startCharacter"]},
                                    "end": {"line": x["endLine"], "character": x["endCharacter"]}})))
        return {"fold": out, "tk": [t["k"] for t in v.doc.toks], "ln": [v.pos.pos(t["o"])["line"] for t in v.doc.toks]}
    return [q("foldingRange", v.td())], proj


@section
def selection(v):
    toks = range(1, len(v.doc.toks) + 1)
    ask = [t for t in toks if v.doc.toks[t - 1]["k"] not in ("lp", "rp")][sum(map(ord, v.doc.text)) % 3::3]
    pos = [v.at(t)["position"] for t in ask]
    whole = key(v.pos.range(0, len(v.doc.text)))

    def chain(x):
        out = []
        while x:
            up = x.get("parent")
            out.append([0, -1] if key(x["range"]) == whole and not up else list(v.span(x["range"])))
            if out[-1] == [0, 0]:
                out[-1] = list(v.inner(x["range"]))
            x = up
        return out

    def proj(rs):
        return {"sel": [{"t": t, "r": chain(x)} for t, x in zip(ask, rs[0] or [])], "asked": len(ask),
                "tk": [t["k"] for t in v.doc.toks]}
    return [q("selectionRange", dict(v.td(), positions=pos))], proj


# -- sessions ----------------------------------------------------------------
# -- what is told about definitions -------------------------------------------
def fenced(c):
    """a hover's contents as the code shown and the text below it"""
    if isinstance(c, list):
        return ("", "") if not c else fenced(c[0]) if len(c) == 1 else ("", "%d parts" % len(c))
    if isinstance(c, str):
        return "", c
    if "language" in c:
        return (c["value"], "") if c["language"] == "wat" else ("", c["language"])
    v = c["value"]
    if c["kind"] == "markdown" and v.startswith("```wat\n") and "\n```" in v:
        code, rest = v[7:].split("\n```", 1)
        return code, rest
    return "", v


def front_comments(doc):
    """per token the comments in front of it"""
    return [[doc.text[a:z] for a, z, k in gap if k == "c"] for gap in gaps(doc)]


def gaps(doc):
    out, cur = [], []
    for p in pieces(doc):
        if p[2] in ("c", "w"):
            cur.append(p)
        else:
            out.append(cur)
            cur = []
    return out


@section
def hover(v):
    toks = [t for t, w in enumerate(v.doc.toks, 1) if w["k"] not in ("lp", "rp")]

    def proj(rs):
        out = []
        for t, r in zip(toks, rs):
            if r:
                code, rest = fenced(r["contents"])
                if code or rest:
                    out.append({"t": t, "at": v.tok(r["range"]), "code": code, "rest": rest})
        return {"hover": out, "hovered": toks, "tk": [t["k"] for t in v.doc.toks],
                "word": [t["s"] for t in v.doc.toks], "before": front_comments(v.doc)}
    return [q("hover", v.at(t)) for t in toks], proj


@section
def calls(v):
    def item(it):
        a, z = v.span(it["range"])
        if it["uri"] != v.uri or it["kind"] != 12:
            a = z = 0
        return {"n": it["name"], "a": a, "z": z, "s": v.tok(it["selectionRange"]), "d": it.get("detail", "")}
    toks = [t for t, w in enumerate(v.doc.toks, 1) if w["k"] not in ("lp", "rp")]
    funcs = [n for n in v.doc.nodes if n["k"] in ("func", "ifunc")]
    at = [n["nt"] or n["kw"] for n in funcs]

    def ask(n, t):
        w, s = v.doc.toks, v.doc.toks[t - 1]
        return {"item": {"name": "x", "kind": 12, "uri": v.uri, "range": v.pos.range(w[n["a"] - 1]["o"], w[n["z"] - 1]["e"]),
                         "selectionRange": v.pos.range(s["o"], s["e"])}}

    def proj(rs):
        k, n = len(toks), len(funcs)

        def call(c, who):
            sp = [list(v.span(r)) for r in c["fromRanges"]]
            return {"it": item(c[who]), "c": sp}
        return {"prep": [{"t": t, "r": [item(i) for i in r or []]} for t, r in zip(toks, rs[:k])],
                "inc": [{"t": t, "r": [call(c, "from") for c in r or []]} for t, r in zip(at, rs[k:k + n])],
                "outg": [{"t": t, "r": [call(c, "to") for c in r or []]} for t, r in zip(at, rs[k + n:])]}
    return [q("prepareCallHierarchy", v.at(t)) for t in toks] + \
        [q(m, ask(n, t)) for m in ("incomingCalls", "outgoingCalls") for n, t in zip(funcs, at)], proj


@section
def inlay(v):
    n = len(v.doc.text)
    seed = sum(map(ord, v.doc.text)) * 2654435761
    cuts = [(0, n)] + [sorted(((seed >> (7 * i)) % (n + 1), (seed >> (5 * i + 3)) % (n + 1))) for i in range(4)]
    ends = {}

    def proj(rs):
        for i, t in enumerate(v.doc.toks, 1):
            p = v.pos.pos(t["e"])
            ends[p["line"], p["character"]] = i
        out = []
        for (a, z), r in zip(cuts, rs):
            ins = [i for i, t in enumerate(v.doc.toks, 1) if a <= t["o"] and t["e"] <= z]
            out.append({"a": ins[0] if ins else 1, "z": ins[-1] if ins else 0,
                        "r": [{"t": ends.get((h["position"]["line"], h["position"]["character"]), 0), "v": h["label"]} for h in r or []]})
        return {"hints": out}
    return [q("inlayHint", dict(v.td(), range=v.pos.range(a, z))) for a, z in cuts], proj


@section
def completion(v):
    """what is offered right behind every reference"""
    toks = getattr(v.doc, "typing", None) or ref_tokens(v.doc)

    def item(i):
        doc = i.get("documentation")
        code, rest = fenced(doc) if doc else ("", "")
        return {"n": i["label"], "ins": i.get("insertText", i["label"]), "k": i["kind"],
                "ty": (i.get("labelDetails") or {}).get("description", ""), "code": code + rest.strip()}

    def at(t):
        p = v.at(t)
        p["position"] = v.pos.pos(v.doc.toks[t - 1]["e"])
        return p

    def proj(rs):
        return {"compl": [{"t": t, "d": v.doc.toks[t - 1]["s"].startswith("$"), "has": r is not None,
                           "r": [item(i) for i in (r["items"] if isinstance(r, dict) else r or [])]} for t, r in zip(toks, rs)]}
    return [q("completion", at(t)) for t in toks], proj


RESERVED = {"module", "func", "type", "param", "result", "local", "global", "table", "memory", "elem", "data", "start", "import", "export",
            "mut", "offset", "item", "declare", "shared", "unshared", "block", "loop", "if", "then", "else", "end",
            "i32", "i64", "f32", "f64", "v128", "funcref", "externref", "extern"}


@section
def words(v):
    """what is offered while a word of the document is being typed"""
    doc, rng = v.doc, random.Random(v.doc.text)
    ends = {}       # word that opens a group -> last token of the group
    for n in doc.nodes:
        if doc.toks[n["a"] - 1]["k"] == "lp" and n["a"] < n["z"]:
            ends[n["a"] + 1] = n["z"]
    toks = [t for t, x in enumerate(doc.toks, 1) if x["k"] in ("kw", "type", "instr")]
    qs, asked = [], []
    for t in toks if len(toks) <= 12 else rng.sample(toks, 12):
        x = doc.toks[t - 1]
        drop = t in ends and rng.random() < 0.6
        k = rng.randrange(0 if drop and x["k"] == "kw" and x["s"] not in ("block", "loop", "if") else 1, max(2, len(x["s"])))
        s = x["s"][:k]
        if s in RESERVED or k >= len(x["s"]):
            continue
        text = doc.text[:x["o"]] + s + doc.text[doc.toks[ends[t] - 1]["o"] if drop else x["e"]:]
        qs.append({"op": "commit", "uri": v.uri, "text": text})
        qs.append(q("completion", dict(v.td(), position=Positions(text).pos(x["o"] + k))))
        asked.append((t, x, drop, s))
    qs.append({"op": "commit", "uri": v.uri, "text": doc.text})

    def proj(rs):
        lists, out = [], []
        for (t, x, drop, s), r in zip(asked, rs[1::2]):
            items = (r["items"] if isinstance(r, dict) else r) or []
            ins = [i["label"] for i in items if i["kind"] == 24]
            if ins not in lists:
                lists.append(ins)
            out.append({"t": t, "w": x["s"], "k": x["k"], "cut": drop, "typed": s, "i": lists.index(ins) + 1,
                        "r": [{"n": i["label"], "k": i["kind"]} for i in items if i["kind"] in (7, 14)]})
        return {"words": out, "lists": lists}
    return qs, proj


def record(sessions, prop, init=None):
    """Returns per session (events, ops)."""
    plans, ops_all = [], []
    for si, steps in enumerate(sessions):
        ini = init(si) if callable(init) else init
        ops = [{"op": "new", "init": ini} if ini is not None else {"op": "raw"}]
        views = {}
        plan = [("skip", views, ini)]
        for st in steps:
            if st[0] == "commit":
                _, u, doc = st
                ops.append({"op": "commit", "uri": URI[u], "text": doc.text})
                plan.append(("commit", u, doc))
            else:
                _, u, doc, secs = st
                v = views.get(id(doc), None)
                if v is None or v.uri != URI[u]:
                    v = views[id(doc)] = View(doc, u)
                for s in secs:
                    qs, proj = SECTIONS[s](v)
                    for x in qs:
                        ops.append(x)
                    plan.append(("ask", u, proj, len(qs), s))
        plans.append(plan)
        ops_all.append(ops)
    res = driver.run_sessions(ops_all)
    out = []
    for plan, ops, rs in zip(plans, ops_all, res):
        evs, k = [], 0
        for it in plan:
            if it[0] == "skip":
                for v in it[1].values():
                    v.init, v.inited = it[2], rs[k].get("ok")
                k += 1
            elif it[0] == "commit":
                r = rs[k]
                k += 1
                if "panic" in r:
                    evs.append(crash(it[1], prop, "commit", r))
                    break
                evs.append({"e": "commit", "u": it[1], "nodes": it[2].nodes})
            else:
                _, u, proj, n, name = it
                part = rs[k:k + n]
                k += n
                p = next((x for x in part if "ok" not in x), None)
                if p is not None:
                    evs.append(crash(u, prop, name, p))
                    continue
                ev = proj([x["ok"] for x in part])
                ev.update(e="answer", u=u)
                evs.append(ev)
        out.append((evs, ops))
    return out


def crash(u, prop, where, r):
    return {"e": "crash", "u": u, "p": prop, "where": where, "msg": str(r.get("panic", "no answer"))}
