"""Record formattings as events of spec/TraceFormat.tla."""
import random
import driver, gen
from record import URI

OPTS = [dict(), dict(indent=4), dict(tabs=True, indent=4), dict(crlf=True), dict(comments=True), dict(width=30),
        dict(width=1), dict(directive="x-keep"), dict(indent=1, comments=True, width=200)]


def full(o):
    return {"indent": o.get("indent", 2), "tabs": o.get("tabs", False), "crlf": o.get("crlf", False),
            "comments": o.get("comments", False), "directive": list(o.get("directive", "fmt-ignore"))}


def with_directives(doc, rng, word):
    """put ignore directives (and things that only look like one) before some modules and fields"""
    tr = list(doc.trivia)
    for n in doc.nodes:
        up = doc.nodes[n["p"] - 1]["k"] if n["p"] else ""
        if n["k"] == "module" or up == "module":
            if rng.random() < 0.35:
                c = rng.choice([";; %s", ";;%s", ";; %s because", ";;  %s\t.", ";; %s2", ";; no %s", ";; %s"]) % word
                tr[n["a"] - 1] += c + rng.choice(["\n", "\n  ", "\n", "\n\n", "\n;; other\n"])
    doc.render(tr)
    return doc


def one_break(s):
    return s[s.rfind("\r\n" if "\r\n" in s else "\n"):] if s.count("\n") > 1 else s


def variants(doc, rng, k):
    """the same tokens with other white space (no comments, no blank lines); modules stay on their lines"""
    out = []
    top = [n["a"] - 1 for n in doc.nodes if n["k"] == "module" and n["a"] > 1]
    for _ in range(k):
        d = gen.Doc()
        d.toks = [dict(t) for t in doc.toks]
        tr = [one_break(s) for s in gen.trivia_for(d, rng, ws=rng.choice(["min", "mixed", "pretty"]))]
        for i in top:
            tr[i] = doc.trivia[i]
        out.append(d.render(tr))
    return out


def record(jobs, prop):
    """jobs: (doc, opts, plain, other texts) -> groups of one event"""
    first = driver.run_sessions([[{"op": "format", "text": t, "opts": o} for t in [d.text] + others]
                                 for d, o, plain, others in jobs])
    outs = [r[0].get("ok") for r in first]
    again = driver.run_sessions([[{"op": "format", "text": t if t is not None else "", "opts": j[1]}]
                                 for t, j in zip(outs, jobs)])
    groups = []
    for (d, o, plain, others), f, out, a in zip(jobs, first, outs, again):
        bad = next((x for x in f + a if "ok" not in x), None)
        if bad is not None:
            groups.append([{"e": "crash", "p": prop, "where": "format", "msg": str(bad.get("panic", "no answer"))}])
            continue
        groups.append([{"e": "format", "C": list(d.text), "D": list(out), "out": out, "again": a[0]["ok"],
                        "others": [x["ok"] for x in f[1:]], "o": full(o), "plain": plain, "nodes": d.nodes}])
    return groups


def ranges(jobs, prop):
    """jobs: (text, options, [(from, to, stable)]) -> groups of range events"""
    sess = []
    for text, o, rs in jobs:
        p = gen.Positions(text)
        u = URI["a"]
        ops = [{"op": "raw"}, {"op": "commit", "uri": u, "text": text}]
        fo = {"tabSize": o.get("indent", 2), "insertSpaces": not o.get("tabs", False)}
        for a, z, st in rs:
            if a is None:
                ops.append({"op": "q", "m": "formatting", "p": {"textDocument": {"uri": u}, "options": fo}})
            else:
                ops.append({"op": "q", "m": "rangeFormatting", "p": {"textDocument": {"uri": u}, "range": p.range(a, z),
                                                                      "options": fo}})
        sess.append(ops)
    groups = []
    for (text, o, rs), res in zip(jobs, driver.run_sessions(sess)):
        p = gen.Positions(text)
        evs = []
        for (a, z, st), r in zip(rs, res[2:]):
            if "ok" not in r:
                evs.append({"e": "crash", "p": prop, "where": "range formatting", "msg": str(r.get("panic", "no answer"))})
                continue
            es = r["ok"]
            ev = {"e": "range", "C": list(text), "ra": a or 0, "rz": len(text) if a is None else z, "stable": st,
                  "some": bool(es), "s": 0, "z": 0, "N": [], "text": ""}
            if es:
                s, e = p.off(es[0]["range"]["start"]), p.off(es[0]["range"]["end"])
                ev.update(s=-1 if s is None or len(es) != 1 else s, z=-1 if e is None else e,
                          N=list(es[0]["newText"]), text=es[0]["newText"])
            evs.append(ev)
        groups.append(evs)
    return groups


def some_ranges(text, rng, k):
    """arbitrary character ranges"""
    out = []
    for _ in range(k):
        a = rng.randrange(len(text) + 1)
        z = min(len(text), a + rng.choice([0, 1, 3, 10, 40, 200]))
        if text[a:a + 1] == "\n" and text[a - 1:a] == "\r":
            a -= 1
        if text[z:z + 1] == "\n" and text[z - 1:z] == "\r":
            z += 1
        out.append((a, z, False))
    return out


def formatted_jobs(docs):
    """format documents, then ask for ranges of whole lines: nothing may change.  Texts whose lines break differently
    at another width are left out, since a range is laid out as if its first line began at the margin."""
    outs = driver.run_sessions([[{"op": "format", "text": d.text, "opts": dict(o, width=w)} for w in (80, 160)]
                                for d, o, rng in docs])
    jobs = []
    for (d, o, rng), r in zip(docs, outs):
        t = r[0].get("ok")
        if not t or t != r[1].get("ok") or any("\n" in s[s.find("(;"):] for s in d.trivia if "(;" in s):
            continue
        lines, a = [], 0
        for ln in t.split("\n"):
            s, e = a + len(ln) - len(ln.lstrip(" \t")), a + len(ln)
            a += len(ln) + 1
            if s < e:
                lines.append((s, e))
        rs = []
        for _ in range(8):
            x = rng.randrange(len(lines))
            rs.append((lines[x][0], lines[min(len(lines) - 1, x + rng.randrange(4))][1], True))
        jobs.append((t, o, rs))
    return jobs
