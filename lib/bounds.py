"""Ask everything everywhere about any text, as events of spec/TraceBounds.tla."""
import random
import driver, gen, server

U = "file:///a.wat"
AT = ["definition", "typeDefinition", "declaration", "references", "hover", "rename", "completion", "prepareRename",
      "prepareCallHierarchy", "codeAction", "selectionRange", "semanticTokensRange", "inlayHint", "rangeFormatting"]
ALL = ["pullDiagnostics", "documentSymbol", "semanticTokensFull", "foldingRange", "formatting"]


def r4(r):
    return [r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]]


def widths(text):
    """UTF-16 lengths of the lines, and the positions in the middle of a character"""
    ws, cuts = [], []
    for i, ln in enumerate(text.split("\n")):
        w = 0
        for ch in ln:
            k = 2 if ord(ch) > 0xffff else 1
            if k == 2:
                cuts.append([i, w + 1])
            w += k
        ws.append(w)
    return ws, cuts


def project(q, a, types):
    e = {"rs": [], "nest": [], "edits": [], "toks": [], "rows": [], "types": types, "foreign": False, "loose": False}

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if "start" in x and "end" in x and isinstance(x["start"], dict):
                e["rs"].append(r4(x))
                return
            if set(x) == {"line", "character"}:
                e["rs"].append([x["line"], x["character"]] * 2)
                return
            if "uri" in x and x["uri"] != U:
                e["foreign"] = True
            if "selectionRange" in x and "range" in x:
                e["nest"].append([r4(x["selectionRange"]), r4(x["range"])])
            if "parent" in x and x["parent"] and "range" in x:
                e["nest"].append([r4(x["range"]), r4(x["parent"]["range"])])
            if "changes" in x and isinstance(x["changes"], dict):
                for u, es in x["changes"].items():
                    if u != U:
                        e["foreign"] = True
                    e["edits"].append([r4(y["range"]) for y in es])
            if "startLine" in x:
                e["rows"].append([x["startLine"], x["endLine"]])
            for y in x.values():
                walk(y)
    walk(a)
    if q in ("formatting", "rangeFormatting") and a:
        e["edits"].append([r4(y["range"]) for y in a])
    if q in ("semanticTokensFull", "semanticTokensRange") and a:
        d = a["data"]
        e["toks"] = [list(t) for t in zip(d[0::5], d[1::5], d[2::5], d[3::5])] if not isinstance(d[0] if d else 0, dict) else \
            [[t["deltaLine"], t["deltaStart"], t["length"], t["tokenType"]] for t in d]
        e["loose"] = q == "semanticTokensRange"
    return e


def positions(text, rng, k):
    """offsets at the edges of words, and anywhere"""
    edges = sorted({m for w in gen_words(text) for m in w})
    out = [rng.choice(edges) if edges and rng.random() < 0.8 else rng.randrange(len(text) + 1) for _ in range(k)]
    return out + [0, len(text)]


def gen_words(text):
    import re
    return [(m.start(), m.end()) for m in re.finditer(r"[^\s()]+|[()]", text)]


def outside(text, rng):
    ln = rng.randrange(text.count("\n") + 1)
    return rng.choice([{"line": text.count("\n") + 1, "character": 0}, {"line": text.count("\n") + 5, "character": 7},
                       {"line": ln, "character": 10 ** 6}, {"line": 2 ** 31 - 1, "character": 2 ** 31 - 1},
                       {"line": 0, "character": 2 ** 31 - 1}])


def questions(text, rng, k):
    out = [(m, server.params((m, 0, 0), U, text)) for m in ALL]
    ids = [a + d for a, z in gen_words(text) if text[a] == "$" or text[a].isdigit() for d in (0, z - a)]
    groups = [a for a, z in gen_words(text) if text[a:z] in ("param", "result", "local")]
    for o in positions(text, rng, k):
        m = rng.choice(AT)
        if ids and m in ("definition", "typeDefinition", "declaration", "references", "rename", "prepareRename", "hover",
                         "prepareCallHierarchy") and rng.random() < 0.7:
            o = rng.choice(ids)
        if groups and m == "codeAction" and rng.random() < 0.6:
            o = rng.choice(groups)
        z = rng.choice([o, len(text), rng.randrange(o, len(text) + 1)])
        p = server.params((m, o, z), U, text)
        if rng.random() < 0.08:
            w = outside(text, rng)
            if "position" in p:
                p["position"] = w
            elif "positions" in p:
                p["positions"][-1] = w
            elif "range" in p and (w["line"], w["character"]) >= (p["range"]["start"]["line"], p["range"]["start"]["character"]):
                p["range"]["end"] = w
        if m == "rename":
            p["newName"] = rng.choice(["$x", "$x", "$x", "$y", "$z1", "$é", "x", "", "$", "$a b", "$😀"])
        out.append((m, p))
    return out


def record(texts, prop, seed, k=24):
    init = server.init_params(True)
    sess, qss = [], []
    for i, t in enumerate(texts):
        rng = random.Random("b%d/%d" % (seed, i))
        qs = questions(t, rng, k)
        qss.append(qs)
        sess.append([{"op": "new", "init": init}, {"op": "commit", "uri": U, "text": t}] + [{"op": "q", "m": m, "p": p} for m, p in qs])
    res = driver.run_sessions(sess)
    # calls of the items that were offered
    more = []
    for s, qs, r in zip(sess, qss, res):
        items = [it for (m, p), x in zip(qs, r[2:]) if m == "prepareCallHierarchy" and x.get("ok") for it in x["ok"]][:3]
        more.append([(m, {"item": it}) for it in items for m in ("incomingCalls", "outgoingCalls")])
    res2 = driver.run_sessions([s[:2] + [{"op": "q", "m": m, "p": p} for m, p in x] for s, x in zip(sess, more)])
    groups = []
    for t, qs, x, r, r2 in zip(texts, qss, more, res, res2):
        ws, cuts = widths(t)
        types = len(r[0]["ok"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]) if "ok" in r[0] else 0
        g = [{"e": "text", "widths": ws, "cuts": cuts}]
        if "ok" not in r[1]:
            g.append(dead("commit", r[1]))
        for (m, p), a in list(zip(qs, r[2:])) + list(zip(x, r2[2:])):
            if "ok" not in a:
                g.append(dead(m, a))
            else:
                g.append(dict(project(m, a["ok"], types), e="answer", q=m, alive=True, why=""))
        groups.append(g)
    return groups


def dead(q, a):
    return dict(project(q, None, 0), e="answer", q=q, alive=False, why=str(a.get("panic", "no answer")))
