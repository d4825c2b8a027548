"""Record parses of texts as events of spec/TraceSyntax.tla."""
import driver


def char_index(text):
    m, b = {0: 0}, 0
    for i, ch in enumerate(text):
        b += len(ch.encode())
        m[b] = i + 1
    return m


def event(text, r, judge, prop):
    if "ok" not in r:
        return {"e": "crash", "p": prop, "where": "parse", "msg": str(r.get("panic", "no answer"))}
    o = r["ok"]
    m = char_index(text)
    return {"e": "parse", "C": list(text) if judge else [""] * len(text), "judge": judge,
            "same": o["text"] == text,
            "toks": [{"k": k, "a": m.get(a, -1) + 1, "z": m.get(z, -1)} for k, a, z, _ in o["tokens"]],
            "errs": [{"s": m.get(a, -1), "z": m.get(z, -1)} for a, z, _ in o["errors"]]}


def record(texts, judge, prop):
    rs = driver.run_sessions([[{"op": "parse", "text": t}] for t in texts])
    return [[event(t, r[0], judge, prop)] for t, r in zip(texts, rs)]
