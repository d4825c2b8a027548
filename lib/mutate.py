"""Damaged documents: edits of generated ones, at token and at character level, and raw noise."""
import random
import gen
FRAG = ["(", ")", "(;", ";)", ";;", ";", "\"", "\\", "$", "$a", "0", "-1", "0x", "1.5", "nan:0x1", "_",
        "module", "func", "type", "param", "result", "local", "import", "export", "global", "mut", "memory",
        "data", "table", "elem", "declare", "item", "offset", "offset=", "offset=4", "align=", "start", "end",
        "else", "then", "if", "block", "loop", "i32", "funcref", "extern", "shared", "call", "call_indirect",
        "i32.add", "local.get", "br_table", "\n", "\r", "\t", " ", "\x0c", "\x0b", "\x00", "\x7f", ",", "[", "]",
        "{", "}", "'", "é", "漢", "😀", "\u2028", "\"\\u{zz}\"", "\"\\u{110000}\"", "\"\\q\"", "\"é😀\"", "(func)",
        "(module)", "(if)", "(then)", "(else)", "(param $a)", "(type 0)", "(elem)", "(import \"\" \"\")", "=",
        "(@a)", "+inf", ".5", "1e", "0x1p", "i32.const"]


def mutate(doc, rng):
    toks = [t["s"] for t in doc.toks]
    tr = list(doc.trivia)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        x = rng.random()
        if not toks:
            break
        i = rng.randrange(len(toks))
        if x < 0.3:
            del toks[i]
            tr[i] = tr[i] + tr[i + 1] if rng.random() < 0.5 else tr[i]
            del tr[i + 1]
        elif x < 0.55:
            toks.insert(i, rng.choice(FRAG))
            tr.insert(i, rng.choice([" ", " ", "\n", "", " "]))
        elif x < 0.7:
            toks[i] = rng.choice(FRAG)
        elif x < 0.8:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < 0.87:
            j = min(len(toks), i + rng.randrange(1, 8))
            toks[i:i] = toks[i:j]
            tr[i:i] = tr[i:j]
        elif x < 0.94:
            j = min(len(toks), i + rng.randrange(1, 8))
            del toks[i:j]
            del tr[i:j]
        else:
            toks[i] = toks[i][:len(toks[i]) // 2] + rng.choice(FRAG) + toks[i][len(toks[i]) // 2:]
    text = "".join(a + b for a, b in zip(tr, toks)) + tr[-1]
    if rng.random() < 0.15 and text:
        k = rng.randrange(len(text))
        text = text[:k] if rng.random() < 0.6 else text[k:]
    if rng.random() < 0.15 and text:
        k = rng.randrange(len(text))
        text = text[:k] + rng.choice(FRAG) + text[k + rng.randrange(3):]
    return text


def noise(rng):
    return "".join(rng.choice(FRAG) + rng.choice(["", " ", " ", "\n"]) for _ in range(rng.randrange(0, 40)))


def damaged(seed, size="small"):
    rng = random.Random("m%d" % seed)
    if rng.random() < 0.12:
        return noise(rng)
    cfg = dict(fields=(1, 3), instrs=(0, 3), depth=2) if size == "small" else {}
    if rng.random() < 0.4:
        cfg["comments"] = 0.15
    if rng.random() < 0.3:
        cfg["unicode"] = True
    if rng.random() < 0.2:
        cfg["crlf"] = True
    if rng.random() < 0.2:
        cfg["modules"] = (1, 2)
    return mutate(gen.make(seed, **cfg), rng)
