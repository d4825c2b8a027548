"""Histories of documents in one LanguageService, as events of spec/TraceServer.tla."""
import itertools, random, re
import driver, gen, mutate, server

WORD = re.compile(r"\$[a-zA-Z0-9_]+|[a-z][a-z0-9_.]+|[0-9]+|\"[^\"\n]*\"|[()]|;;[^\n]*|[ \n]+")
KIN = {"i32": ["i64", "f32", "f64"], "i64": ["i32", "f64"], "f32": ["i32", "f64"], "f64": ["f32", "i64"],
       "param": ["local", "result"], "local": ["param"], "result": ["param"], "func": ["type", "table"], "block": ["loop"],
       "loop": ["block"], "local.get": ["local.set", "global.get"], "call": ["return_call", "ref.func"],
       "global": ["memory"], "mut": ["i32"], "export": ["import"], "drop": ["nop"], "nop": ["drop"], "br": ["br_if"]}


def edit(text, rng):
    """a small edit; many keep the lengths of all tokens"""
    toks = [m for m in WORD.finditer(text)]
    if not toks:
        return text + "(module)"
    for _ in range(20):
        m = rng.choice(toks)
        w = m.group()
        x = rng.random()
        if rng.random() < 0.1:        # swap two pieces
            k = rng.choice(toks)
            if k.start() > m.start() and k.group() != w:
                return text[:m.start()] + k.group() + text[m.end():k.start()] + w + text[k.end():]
        if w.startswith("$"):
            n = w.swapcase() if x < 0.2 else rng.choice([t.group() for t in toks if t.group().startswith("$")] + ["$a", "$b", "$z"]) if x < 0.7 else \
                w[:-1] + rng.choice("abcxyz")
        elif w.isdigit():
            n = str(rng.randrange(10)) if x < 0.8 else "$a"
        elif w in KIN:
            n = rng.choice(KIN[w]) if x < 0.8 else ""
        elif w.isspace():
            n = rng.choice([" ", "\n", "  ", w + "\n"])
        elif w in "()":
            if x < 0.8:
                continue
            n = ""
        else:
            n = w[:-1] + rng.choice("abq") + w[-1:] if x < 0.5 else w.swapcase()
        if n != w:
            return text[:m.start()] + n + text[m.end():]
    return text


def questions(text, rng, k):
    """questions at the starts of words"""
    at = [m.start() for m in WORD.finditer(text) if not m.group().isspace()] or [0]
    out = [("pullDiagnostics", 0, 0), ("documentSymbol", 0, 0), ("semanticTokensFull", 0, 0), ("inlayHint", 0, len(text))]
    for _ in range(k):
        o = rng.choice(at)
        out.append((rng.choice(["definition", "references", "hover", "rename", "completion", "prepareRename", "typeDefinition",
                                "declaration", "prepareCallHierarchy", "codeAction", "selectionRange", "foldingRange",
                                "formatting", "semanticTokensRange", "references", "hover", "definition"]),
                    o + rng.choice([0, 1]), rng.choice([o, len(text), rng.randrange(len(text) + 1)])))
    for m in re.finditer(r"\(func\b", text):
        z = close(text, m.start())
        if rng.random() < 0.4:
            out.append((rng.choice(["incomingCalls", "outgoingCalls"]), m.start(), z))
    return out


def close(text, a):
    d = 0
    for i in range(a, len(text)):
        d += (text[i] == "(") - (text[i] == ")")
        if d == 0:
            return i + 1
    return len(text)


CFG = [dict(fields=(2, 5), instrs=(1, 4), depth=2, names=["$a", "$b", "$c"]),
       dict(fields=(1, 3), instrs=(0, 3), modules=(1, 3)),
       dict(fields=(2, 4), instrs=(1, 4), depth=3, p_block=0.4, names=["$a", "$b"]),
       dict(fields=(3, 6), instrs=(1, 3), depth=1, p_num=0.6),
       dict(fields=(2, 4), instrs=(1, 4), kinds=dict(func=4, type=3, glob=1, imp=1, exp=1, elem=1), names=["$a", "$b"], p_num=0.3)]


def session(seed, thorough=False):
    rng = random.Random("h%d" % seed)
    us = ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]
    cur = {}
    out = []
    for i in range(rng.randrange(4, 16 if thorough else 9)):
        u = rng.choice(us)
        x = rng.random()
        if u in cur and x < 0.75:
            t = edit(cur[u], rng)
            if rng.random() < 0.3:
                t = edit(t, rng)
        elif cur and x < 0.85:
            t = cur[rng.choice(sorted(cur))]
        elif x < 0.93:
            t = gen.make(seed * 13 + i, **CFG[(seed + i) % len(CFG)]).text
        else:
            t = mutate.damaged(seed * 13 + i, "small")
        cur[u] = t
        out.append(("put", u, t))
        for v in ([u] if rng.random() < 0.7 else sorted(cur)):
            out += [("ask", v, q) for q in questions(cur[v], rng, 6)]
    return out


def exhaustive(seed, n):
    """every sequence of n puts of three related texts into two documents, everything asked after each"""
    rng = random.Random("x%d" % seed)
    t1 = gen.make(seed, **dict(CFG[seed % len(CFG)], fields=(2, 3), instrs=(1, 2))).text
    t2 = edit(t1, rng)
    ts = [t1, t2, edit(t2, rng)]
    qs = {t: questions(t, rng, 10) for t in ts}
    for h in itertools.product([(u, t) for u in ("a", "b") for t in ts], repeat=n):
        out, cur = [], {}
        for u, t in h:
            cur[u] = t
            out.append(("put", u, t))
            for v in sorted(cur):
                out += [("ask", v, q) for q in qs[cur[v]]]
        yield out


def record(jobs, prop):
    need = set()
    sess = []
    for j in jobs:
        ops, cur = [{"op": "new", "init": server.init_params(True)}], {}
        for k, u, x in j:
            uri = "file:///%s.wat" % u
            if k == "put":
                cur[u] = x
                ops.append({"op": "commit", "uri": uri, "text": x})
            else:
                need.add((cur[u], x))
                ops.append({"op": "q", "m": x[0], "p": server.params(x, uri, cur[u])})
        sess.append(ops)
    memo = server.fresh(need)
    groups = []
    for j, res in zip(jobs, driver.run_sessions(sess)):
        ids, ms, ev, cur = {}, {}, [], {}
        for (k, u, x), r in zip(j, res[1:]):
            if k == "put":
                cur[u] = x
                ev.append({"e": "put", "u": u, "t": ids.setdefault(x, "t%d" % len(ids))})
            else:
                a = server.canon(x[0], r["ok"], "file:///%s.wat" % u) if "ok" in r else "CRASH"
                q = "%s %d %d" % x
                t = ids[cur[u]]
                ms[t, q] = memo[cur[u], x]
                ev.append({"e": "answer", "p": prop, "u": u, "q": q, "a": a})
        groups.append([{"e": "memo", "t": t, "q": q, "a": a} for (t, q), a in sorted(ms.items())] + ev)
    return groups
