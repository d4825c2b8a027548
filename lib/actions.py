"""Record code actions as events of spec/TraceRefactor.tla."""
import random
import driver, gen
from record import URI

U = URI["a"]
ONLY = ["", "", "", "", "", "refactor.rewrite", "refactor.rewrite", "quickfix", "source.organizeImports"]


def ask(text, a, z, only):
    ctx = {"diagnostics": []}
    if only:
        ctx["only"] = [only]
    return {"op": "q", "m": "codeAction", "p": {"textDocument": {"uri": U}, "range": gen.Positions(text).range(a, z), "context": ctx}}


def offers(text, ans):
    pos = gen.Positions(text)
    out = []
    for x in ans or []:
        ch = (x.get("edit") or {}).get("changes") or {}
        if set(ch) != {U}:
            out.append({"kind": "elsewhere", "es": []})
            continue
        es = [{"s": pos.off(e["range"]["start"]), "z": pos.off(e["range"]["end"]), "n": list(e["newText"])} for e in ch[U]]
        if any(e["s"] is None or e["z"] is None for e in es):
            out.append({"kind": "nowhere", "es": []})
            continue
        out.append({"kind": x.get("kind", ""), "es": sorted(es, key=lambda e: e["s"])})
    return out


def requests(doc, rng):
    """ranges from within one token to within another, and of whole groups"""
    toks = doc.toks
    out = []
    for n in doc.nodes:
        if n["k"] in ("param", "result", "local"):
            a, z = toks[n["a"] - 1]["o"], toks[n["z"] - 1]["e"]
            x = rng.random()
            if x < 0.3:
                out.append((a, z))
            elif x < 0.6:
                t = toks[rng.randrange(n["a"] - 1, n["z"])]
                out.append((t["o"], t["e"]) if t["e"] - t["o"] < 2 or rng.random() < 0.5 else (t["o"] + 1, t["o"] + 1))
            else:
                i, j = sorted(rng.randrange(n["a"] - 1, n["z"]) for _ in "ab")
                out.append((toks[i]["o"], toks[j]["e"]))
        if n["k"] in ("typeuse", "functype") and n["c"]:
            for _ in range(2):
                i, j = sorted(rng.choice(n["c"]) for _ in "ab")
                out.append((toks[doc.nodes[i - 1]["a"] - 1]["o"], toks[doc.nodes[j - 1]["z"] - 1]["e"]))
    i, j = sorted(rng.randrange(len(toks)) for _ in "ab")
    return rng.sample(out, min(len(out), 8)) + [(toks[i]["o"], toks[j]["e"])]


def act_jobs(doc, rng):
    return [("act", doc.text, a, z, rng.choice(ONLY), {"nodes": doc.nodes}) for a, z in requests(doc, rng)]


def fix_jobs(doc, rng):
    """white space inside one memory argument"""
    out = []
    folded = {o["t"] for n in doc.nodes if n["k"] == "instr" and n["f"] for o in n["op"]}
    for t, w in enumerate(doc.toks, 1):
        if w["k"] != "memarg" or rng.random() < 0.5:
            continue
        name, val = w["s"].split("=")
        ws = lambda: rng.choice([" ", "  ", "\n", "\t"])
        x = rng.choice([(ws(), ""), ("", ws()), (ws(), ws())])
        bad = name + x[0] + "=" + x[1] + val
        text = doc.text[:w["o"]] + bad + doc.text[w["e"]:]
        o = w["o"] + rng.randrange(1, len(name))
        out.append(("fix", text, o, o, rng.choice(ONLY), {"good": [list(y["s"]) for y in doc.toks], "must": val.isdigit() and t in folded}))
    return out


def record(jobs, prop):
    """jobs: lists of (kind, text, a, z, only, rest) about one text each"""
    sess = []
    for k, text, a, z, only, rest in jobs:
        sess.append([{"op": "new", "init": {"capabilities": {}}}, {"op": "commit", "uri": U, "text": text}, ask(text, a, z, only)])
    groups = []
    for (k, text, a, z, only, rest), r in zip(jobs, driver.run_sessions(sess)):
        bad = next((x for x in r if "ok" not in x), None)
        if bad is not None:
            groups.append([{"e": "crash", "p": prop, "where": "codeAction", "msg": str(bad.get("panic", "no answer"))}])
            continue
        groups.append([dict(rest, e=k, C=list(text), ra=a, rz=z, only=only, offers=offers(text, r[2]["ok"]))])
    return groups
