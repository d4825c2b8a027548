"""The checks: which sessions are recorded from the real code for each property, and how the
specification's verdicts become an exit code, a replay file and an evidence file."""
import itertools, json, os, random, sys, time
import actions, bounds, fmt, gen, history, mutate, record, server, small, syntax, tlc
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = json.load(open(os.path.join(VERIF, "known_findings.json")))
PROPS = {}


def prop(pid, level="model_checking"):
    def deco(f):
        PROPS[pid] = (f, level)
        return f
    return deco


class Run:
    """one check run: collects groups of events, their verdicts and coverage"""
    def __init__(self, pid, tier, seed, scale):
        self.pid, self.tier, self.seed, self.scale = pid, tier, seed, scale
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.distinct = set()
        self.samples = []
        self.viol = []          # (size, message, replay payload)
        self.extra = {}
        self.known = []
        self.rng = random.Random("%s/%d" % (pid, seed))

    def n(self, quick, thorough=None):
        k = (thorough if thorough is not None else quick * 12) if self.thorough else quick
        return max(1, int(k * self.scale))

    def left(self):
        return (3000 if self.thorough else 700) - (time.time() - self.t0)

    # -- trace validation ----------------------------------------------------
    def sessions(self, sessions, kind="service", init=None, module="Trace", cfg=None):
        """record sessions from the real code and let TLC judge the trace"""
        rec = record.record(sessions, self.pid, init)
        groups = [r[0] for r in rec]
        bad, st = tlc.validate(groups, module=module, cfg=cfg)
        self.count(st, len(groups))
        for s in sessions[:2]:
            self.sample(s)
        for s in sessions:
            for step in s:
                if step[0] == "commit":
                    self.distinct.add(hash(step[2].text))
        for gi, ei, ms in bad:
            for m in ms:
                if m["p"] == self.pid:
                    self.violation(m, sessions[gi], init(gi) if callable(init) else init, module, cfg)

    def count(self, st, traces):
        self.states += st["states"]
        self.transitions += st["events"]
        self.traces += traces

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append([[st[0], st[1], st[2].text[:400]] + list(st[3:]) for st in s[:4]])

    def violation(self, m, session, init, module, cfg):
        texts = [st[2].text for st in session if st[0] == "commit"]
        self.viol.append((sum(map(len, texts)), m,
                          {"property": self.pid, "kind": "service", "mismatch": m, "init": init,
                           "module": module, "cfg": cfg, "session": dump(session)}))

    def custom(self, m, size, payload):
        self.viol.append((size, m, dict(payload, property=self.pid, mismatch=m)))

    # -- end -----------------------------------------------------------------
    def finish(self, level):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "distinct_documents": len(self.distinct), "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
              "assumptions": ["documents come from lib/gen.py and the TLC models; the projection of "
                              "ranges to tokens in lib/record.py is trusted"]}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if not self.viol:
            print("%s held: %d traces, %d events, %.1fs" % (self.pid, self.traces, self.transitions,
                                                             time.time() - self.t0))
            return 0
        self.viol.sort(key=lambda v: v[0])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        with open(path, "w") as f:
            json.dump(self.viol[0][2], f)
        for v in self.viol[:5]:
            print("  mismatch:", json.dumps(v[1])[:600])
        print("  (%d mismatches in all)" % len(self.viol))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1


def dump(session):
    return [[st[0], st[1], {"text": st[2].text, "toks": st[2].toks, "nodes": st[2].nodes,
                            "trivia": st[2].trivia}] + list(st[3:]) for st in session]


def load(session):
    out, cache = [], {}
    for st in session:
        k = st[2]["text"]
        if k not in cache:
            d = gen.Doc()
            d.text, d.toks, d.nodes, d.trivia = k, st[2]["toks"], st[2]["nodes"], st[2]["trivia"]
            cache[k] = d
        out.append((st[0], st[1], cache[k], *st[3:]))
    return out


def replay(path):
    p = json.load(open(path))
    r = Run(p["property"], "quick", 1, 1.0)
    if p["kind"] == "service":
        s = load(p["session"])
        for st in s:
            if st[0] == "commit":
                print("--- commit", st[1]); print(st[2].text)
        r.sessions([s], init=p["init"], module=p["module"], cfg=p["cfg"])
    else:
        REPLAYS[p["kind"]](r, p)
    for v in r.viol:
        print(json.dumps(v[1], indent=1))
    print("reproduced" if r.viol else "not reproduced")
    return 1 if r.viol else 0


REPLAYS = {}


def check(pid, tier, seed, scale):
    f, level = PROPS[pid]
    r = Run(pid, tier, seed, scale)
    f(r)
    return r.finish(level)


# -- names -------------------------------------------------------------------
def mixes(r, n):
    """n documents over a spread of generator settings"""
    base = r.seed * 1000003
    out = []
    for i in range(n):
        k = i % 14
        cfg = {}
        rng = random.Random(i)
        if k == 1:
            cfg = dict(p_hex=0.4)
        elif k == 2:
            cfg = dict(modules=(1, 3), fields=(1, 4))
        elif k == 3:
            cfg = dict(names=["$a"], depth=4, p_block=0.5)
        elif k == 4:
            cfg = dict(comments=0.15)
        elif k == 5:
            cfg = dict(unicode=True, comments=0.1)
        elif k == 6:
            cfg = dict(fields=(1, 3), instrs=(1, 3), depth=2, ws="min")
        elif k == 7:
            cfg = dict(p_uniq=0.8, p_undef=0.3)
        elif k == 8:
            cfg = dict(crlf=True, p_num=0.8, p_hex=0.1)
        elif k == 9:
            cfg = dict(p_block=0.6, depth=5, instrs=(1, 3), p_num=0.6)
        elif k == 10:
            cfg = dict(modules=(2, 3), fields=(1, 3), names=["$a", "$b"], instrs=(1, 4), depth=1, p_undef=0.02)
        elif k == 11:
            cfg = dict(modules=(1, 2), fields=(2, 4), names=["$a", "$b"], instrs=(1, 4), depth=2, p_undef=0.02,
                       p_block=0.1, kinds=dict(func=3, type=1, glob=3, memory=1, table=2, imp=2, exp=2, elem=2, start=1, data=1))
        elif k == 12:   # deep
            cfg = dict(depth=rng.randrange(6, 26), p_block=0.95, instrs=(1, 1), fields=(1, 2), p_num=0.6, kinds=dict(func=1),
                       names=["$a", "$b", "$c", "$d", "$e", "$f"], p_name=rng.choice([0.3, 0.9]))
        elif k == 13:   # wide
            cfg = dict(fields=(11, 22) if rng.random() < 0.5 else (2, 4), instrs=(0, 3), depth=1, p_num=0.6, wide=True,
                       names=["$%s%d" % (c, j) for c in "ab" for j in range(rng.choice([4, 12]))])
        d = gen.make(base + i, **cfg)
        for again in range(1, 6):       # a few large ones would take all the time
            if len(d.toks) <= 700:
                break
            if k == 12:
                cfg["depth"] = max(4, cfg["depth"] - 4)
            d = gen.make(base + i + again * 7919, **cfg)
        out.append(d)
    return out


def single(docs, secs, u="a"):
    return [[("commit", u, d), ("ask", u, d, secs)] for d in docs]


def findings(r):
    """report the listed findings of this property that still show, judged by the standard's rules"""
    for k in KNOWN["known"]:
        if k["property"] != r.pid:
            continue
        if "nodes" not in k:
            KNOWN_KINDS[k["kind"]](r, k)
            continue
        d = gen.Doc()
        d.text, d.toks, d.nodes, d.trivia = k["input"], k["toks"], k["nodes"], k["trivia"]
        rec = record.record(single([d], k["ask"]), r.pid, lambda i: record.legends(0)(1)) if k.get("client") \
            else record.record(single([d], k["ask"]), r.pid)
        bad, _ = tlc.validate([rec[0][0]], cfg="TraceStd.cfg")
        for _, _, ms in bad:
            if any(m["p"] == r.pid and m["t"] == k["t"] for m in ms):
                r.known.append(k["what"])
                break


KNOWN_KINDS = {}
LENGTHS = {"label": (5, 6), "field": (2, 3), "local": (4, 5), "type": (4, 5)}
PACK = {"label": 6, "field": 3, "local": 6, "type": 6}


def exhaust(r, families, secs):
    """every small document of the families of spec/MCDoc.tla"""
    for fam in families:
        k = LENGTHS[fam][1 if r.thorough else 0]
        words = small.enumerate_words(fam, k)
        step = PACK[fam]
        packs = [words[i:i + step] for i in range(0, len(words), step)]
        if r.scale < 1:
            packs = packs[::max(1, int(1 / r.scale))]
        docs = [small.make(fam, p, random.Random("%d/%d" % (r.seed, i)), ws=["min", "mixed", "pretty"][i % 3], crlf=i % 7 == 0)
                for i, p in enumerate(packs)]
        r.extra.setdefault("exhaustive", {})["%s <= %d words" % (fam, k)] = len(words)
        for i in range(0, len(docs), 8000):
            r.sessions(single(docs[i:i + 8000], secs))


def names(pid, secs, quick, families=()):
    @prop(pid)
    def run(r):
        r.sessions(single(mixes(r, r.n(quick)), secs))
        exhaust(r, families, secs)
        findings(r)


names("W06", ["definition"], 3000, ["label", "local", "field"])
names("W23", ["kin"], 3000, ["local", "field"])
names("W07", ["references"], 3000, ["label", "local", "field"])
names("W08", ["rename"], 2400, ["label", "local", "field"])
names("W09", ["undef"], 3600, ["label", "local", "field"])
names("W10", ["dup"], 3600, ["label", "local", "field"])


@prop("W11")
def w11(r):
    base = r.seed * 15485867
    docs = []
    for i in range(r.n(3000)):
        cfg = dict(straight=True, instrs=(0, 9), p_undef=0.02, kinds=dict(func=6, type=2, glob=2, imp=2, table=0.5, memory=0.5))
        if i % 8 == 4:
            cfg.update(p_ctl=0.15, instrs=(3, 12))
        elif i % 4 == 1:
            cfg.update(p_uniq=0.7, instrs=(3, 14))
        elif i % 4 == 2:
            cfg = dict(p_undef=0.02, p_uniq=0.5)
        elif i % 4 == 3:
            cfg.update(fields=(1, 3), instrs=(0, 4), p_std_ix=0.0)
        docs.append(gen.make(base + i, **cfg))
    r.sessions(single(docs, ["types"]))
    exhaust(r, ["type", "local"], ["types"])
    findings(r)


@prop("W12")
def w12(r):
    base = r.seed * 32452843
    docs = []
    for i in range(r.n(3000)):
        cfg = dict(p_wrongimm=[0.15, 0.3, 0.02, 0.5][i % 4], modules=(1, 3))
        if i % 3:
            cfg.update(fields=(1, 4), instrs=(0, 4), depth=2)
        docs.append(gen.make(base + i, unicode=i % 5 == 0, comments=0.05 if i % 7 == 0 else 0, **cfg))
    r.sessions(single(docs, ["literal"]))
    findings(r)


@prop("W16")
def w16(r):
    r.sessions(single(mixes(r, r.n(2400)), ["semantic"]), init=record.legends(r.seed))
    findings(r)


names("W17", ["outline"], 3000, ["local", "field"])
names("W18", ["folding", "selection"], 2400)
names("W19", ["calls"], 2400, ["field"])


@prop("W22")
def w22(r):
    docs = mixes(r, r.n(1600))
    ss = single(docs, ["completion"])
    for i, d in enumerate(docs):
        ts = record.ref_tokens(d)
        if ts and i % 2:
            rng = random.Random(i)
            for t in rng.sample(ts, min(4, len(ts))):
                x = gen.typing(d, t, rng.choice(["$z", "$a", "$zz"]))
                ss[i] += [("commit", ss[i][0][1], x), ("ask", ss[i][0][1], x, ["completion"])]
    r.sessions(ss)
    exhaust(r, ["label", "local", "field"], ["completion"])
    findings(r)


names("W26", ["words"], 1600, ["local", "field"])
names("W21", ["inlay"], 2400, ["local", "field"])


@prop("W20")
def w20(r):
    docs = mixes(r, r.n(1200))
    base = r.seed * 49979687
    for i in range(r.n(1200)):
        docs.append(gen.make(base + i, docs=0.7, unicode=i % 4 == 0, crlf=i % 5 == 0, comments=0.05 if i % 3 == 0 else 0, fields=(2, 6), instrs=(0, 2),
                             depth=2, p_undef=0.02))
    r.sessions(single(docs, ["hover"]))
    exhaust(r, ["local", "field"], ["hover"])
    findings(r)


# -- code actions --------------------------------------------------------------
def judge_actions(r, jobs):
    groups = actions.record(jobs, r.pid)
    bad, st = tlc.validate(groups, module="TraceRefactor")
    r.count(st, len(groups))
    r.extra["offers"] = r.extra.get("offers", 0) + sum(len(g[0].get("offers", ())) for g in groups)
    for j in jobs:
        r.distinct.add(hash(j[1]))
        if len(r.samples) < 3:
            r.samples.append([j[0], j[1][:300], j[2], j[3], j[4]])
    for gi, ei, ms in bad:
        for m in ms:
            if m["p"] == r.pid:
                r.custom(m, len(jobs[gi][1]), {"kind": "action", "job": list(jobs[gi])})


def replay_action(r, p):
    print(p["job"][1])
    judge_actions(r, [tuple(p["job"])])


REPLAYS["action"] = replay_action


@prop("W14")
def w14(r):
    jobs = []
    for i in range(r.n(1500)):
        rng = random.Random("c%d/%d" % (r.seed, i))
        d = gen.make(r.seed * 15485863 + i, fields=(1, 3), instrs=(0, 3), depth=2, comments=[0, 0, 0.1, 0.3][i % 4],
                     unicode=i % 5 == 0, crlf=i % 6 == 0, p_uniq=0.3)
        jobs += actions.act_jobs(d, rng) + (actions.fix_jobs(d, rng) if i % 4 < 2 else [])
    judge_actions(r, jobs)


# -- any text, any question ------------------------------------------------------
def judge_bounds(r, texts, seed):
    groups = bounds.record(texts, r.pid, seed)
    bad, st = tlc.validate(groups, module="TraceBounds")
    r.count(st, len(groups))
    for t in texts:
        r.distinct.add(hash(t))
    r.samples = r.samples or [t[:300] for t in texts[:3]]
    for gi, ei, ms in bad:
        for m in ms:
            if m["p"] == r.pid:
                r.custom(m, len(texts[gi]), {"kind": "bounds", "text": texts[gi], "index": gi, "seed": seed})


def replay_bounds(r, p):
    print(repr(p["text"]))
    for k in range(20):
        judge_bounds(r, [p["text"]], k)


REPLAYS["bounds"] = replay_bounds


@prop("W24")
def w24(r):
    base = r.seed * 86028121
    texts = [mutate.damaged(base + i, "small" if i % 3 else "full") for i in range(r.n(3000))]
    texts += [d.text for d in mixes(r, r.n(400))]
    texts += list(small_texts("tok", 2))[:: 1 if r.thorough else 4]
    judge_bounds(r, texts, r.seed)


# -- syntax --------------------------------------------------------------------
def judge_texts(r, texts, judge):
    """parse texts with the real parser; TraceSyntax judges the trees"""
    groups = syntax.record(texts, judge, r.pid)
    bad, st = tlc.validate(groups, module="TraceSyntax")
    r.count(st, len(groups))
    for k, n in st["tags"].items():
        r.extra["texts_" + k] = r.extra.get("texts_" + k, 0) + n
    for t in texts:
        r.distinct.add(hash(t))
        if len(r.samples) < 3:
            r.samples.append(t[:300])
    for gi, ei, ms in bad:
        for m in ms:
            if m["p"] == r.pid:
                r.custom(m, len(texts[gi]), {"kind": "syntax", "text": texts[gi], "judge": judge})


def replay_syntax(r, p):
    print(p["text"])
    judge_texts(r, [p["text"]], p["judge"])


def known_syntax(r, k):
    bad, _ = tlc.validate(syntax.record([k["input"]], True, r.pid), module="TraceSyntax", env={"FULL": "1"})
    if any(m["p"] == r.pid for _, _, ms in bad for m in ms):
        r.known.append(k["what"])


REPLAYS["syntax"] = replay_syntax
KNOWN_KINDS["syntax"] = known_syntax
ALPHA = {"lex": ["(", ")", ";", "\"", "\\", "$", "a", "0", "_", "x", ".", "\n", "\r", " ", "é"],
         "tok": ["(", ")", "module", "func", " ", "$a", "0", "i32", "if", "then", "end", "\"s\"", "(;", ";)"]}


def small_texts(alpha, depth):
    """every sequence of up to `depth` fragments, inside and outside a module"""
    for n in range(depth + 1):
        for w in itertools.product(ALPHA[alpha], repeat=n):
            yield "".join(w)


def wrap(texts, pre="(module(func ", post="))"):
    return [pre + t + post for t in texts]


@prop("W01")
def w01(r):
    base = r.seed * 7919
    judge_texts(r, [mutate.damaged(base + i, "small" if i % 3 else "full") for i in range(r.n(9000))], False)
    judge_texts(r, [d.text for d in mixes(r, r.n(600))], False)
    d = 4 if r.thorough else 3
    lex = list(small_texts("lex", d))
    judge_texts(r, lex, False)
    judge_texts(r, wrap(lex), False)
    judge_texts(r, list(small_texts("tok", d)), False)
    r.extra["exhaustive_fragment_depth"] = d


@prop("W02")
def w02(r):
    base = r.seed * 104729
    texts = []
    for i in range(r.n(6000)):
        if i % 3 == 0:
            texts.append(gen.make(base + i, comments=0.1, unicode=True, crlf=i % 2 == 0, p_hex=0.2,
                                  **({} if i % 9 == 0 else dict(fields=(1, 3), instrs=(0, 3)))).text)
        else:
            texts.append(mutate.damaged(base + i))
    judge_texts(r, texts, True)
    d = 3
    lex = list(small_texts("lex", d))
    judge_texts(r, lex, True)
    judge_texts(r, wrap(lex, "(module(func i32.const "), True)
    judge_texts(r, wrap(list(small_texts("tok", d)), "(module ", ")"), True)
    findings(r)


# -- formatting ------------------------------------------------------------------
def judge_formats(r, jobs):
    groups = fmt.record(jobs, r.pid)
    bad, st = tlc.validate(groups, module="TraceFormat")
    r.count(st, len(groups))
    for d, o, plain, others in jobs:
        r.distinct.add(hash(d.text))
        if len(r.samples) < 3:
            r.samples.append([d.text[:300], o])
    for gi, ei, ms in bad:
        d, o, plain, others = jobs[gi]
        for m in ms:
            if m["p"] == r.pid:
                r.custom(m, len(d.text), {"kind": "format", "doc": dump([("commit", "a", d)])[0][2], "opts": o,
                                          "plain": plain, "others": others})


def redoc(x):
    d = gen.Doc()
    d.text, d.toks, d.nodes, d.trivia = x["text"], x["toks"], x["nodes"], x["trivia"]
    return d


def replay_format(r, p):
    print(p["doc"]["text"])
    judge_formats(r, [(redoc(p["doc"]), p["opts"], p["plain"], p["others"])])


REPLAYS["format"] = replay_format
SMALL = dict(fields=(1, 3), instrs=(0, 3), depth=2)
# Functions whose exports precede their import are left to the known finding.
FMT = dict(import_first=True)


def fmt_docs(r, n, comments, unicode=True):
    for i in range(n):
        rng = random.Random("f%d/%d" % (r.seed, i))
        cfg = dict(SMALL) if i % 3 else {}
        if i % 5 == 0:
            cfg.update(modules=(1, 3), fields=(0, 3))
        if i % 7 == 0:
            cfg.update(p_block=0.5, depth=4, instrs=(1, 3))
        yield i, rng, gen.make(r.seed * 15485863 + i, comments=rng.choice(comments), unicode=unicode and i % 2 == 0,
                               crlf=i % 4 == 1, **FMT, **cfg)


def plain(d):
    """without blank lines (and without comments, if there were none)"""
    d.render([fmt.one_break(s) for s in d.trivia])
    return d


@prop("W03")
def w03(r):
    jobs = [(d, fmt.OPTS[i % len(fmt.OPTS)], False, []) for i, rng, d in fmt_docs(r, r.n(9000), [0, 0.05, 0.15, 0.3])]
    judge_formats(r, jobs)
    findings(r)


@prop("W04")
def w04(r):
    jobs = []
    for i, rng, d in fmt_docs(r, r.n(4000), [0.05, 0.15, 0.3]):
        jobs.append((d, fmt.OPTS[i % len(fmt.OPTS)], False, []))
    for i, rng, d in fmt_docs(r, r.n(4000), [0]):
        plain(d)
        jobs.append((d, fmt.OPTS[i % len(fmt.OPTS)], True, fmt.variants(d, rng, 3)))
    judge_formats(r, jobs)


def known_format(r, k):
    d = gen.Doc()
    d.text = k["input"]
    bad, _ = tlc.validate(fmt.record([(d, k["opts"], False, [])], r.pid), module="TraceFormat")
    if any(m["p"] == r.pid for _, _, ms in bad for m in ms):
        r.known.append(k["what"])


KNOWN_KINDS["format"] = known_format


def judge_ranges(r, jobs):
    groups = fmt.ranges(jobs, r.pid)
    bad, st = tlc.validate(groups, module="TraceFormat")
    r.count(st, len(groups))
    for t, o, rs in jobs:
        r.distinct.add(hash(t))
    for gi, ei, ms in bad:
        t, o, rs = jobs[gi]
        for m in ms:
            if m["p"] == r.pid:
                r.custom(m, len(t), {"kind": "range", "text": t, "opts": o, "range": rs[ei]})


def replay_range(r, p):
    print(p["text"])
    judge_ranges(r, [(p["text"], p["opts"], [tuple(p["range"])])])


REPLAYS["range"] = replay_range


@prop("W05")
def w05(r):
    jobs = []
    for i, rng, d in fmt_docs(r, r.n(2500), [0, 0.05, 0.15]):
        o = fmt.OPTS[i % len(fmt.OPTS)]
        jobs.append((fmt.with_directives(d, rng, o.get("directive", "fmt-ignore")), o, False, []))
    judge_formats(r, jobs)
    # ranges of arbitrary texts
    judge_ranges(r, [(d.text, rng.choice([dict(), dict(indent=4), dict(tabs=True, indent=4)]),
                      [(None, 0, False)] + fmt.some_ranges(d.text, rng, 5))
                     for i, rng, d in fmt_docs(r, r.n(500), [0, 0.1])])
    # ranges of formatted texts
    judge_ranges(r, fmt.formatted_jobs([(plain(d), rng.choice([dict(), dict(indent=4), dict(tabs=True, indent=4), dict(tabs=True)]), rng)
                                        for i, rng, d in fmt_docs(r, r.n(700), [0])]))


# -- the server and the history of documents ---------------------------------------
URIS = {"a": "file:///w/a.wat", "b": "file:///w/b%20c.wat", "c": "untitled:Untitled-1"}
ASKABLE = sorted(server.METHODS)


def some_texts(rng, seed, n):
    """small texts; most of them well-formed, some of them edits of the one before"""
    out = []
    for i in range(n):
        x = rng.random()
        if out and x < 0.5:
            out.append(history.edit(out[-1], rng))
        elif x < 0.7:
            out.append(mutate.damaged(seed * 31 + i))
        else:
            out.append(gen.make(seed * 31 + i, fields=(1, 4), instrs=(0, 4), depth=2, unicode=i % 2 == 0, crlf=x > 0.95,
                                modules=(1, 2), comments=0.05).text)
    return out


def some_questions(rng, texts, n, first=0):
    n0 = max(map(len, texts)) + 1
    out = []
    for i in range(n):
        o = rng.randrange(n0)
        out.append((ASKABLE[(first + i) % len(ASKABLE)], o, rng.choice([o, 0, n0, rng.randrange(n0)])))
    return out


def judge_conversations(r, jobs):
    groups = server.conversations(jobs, r.pid)
    bad, st = tlc.validate(groups, module="TraceServer")
    r.count(st, len(groups))
    for h, conc in jobs:
        r.distinct.add(hash(json.dumps(h) + "".join(conc["texts"].values())))
        if len(r.samples) < 3:
            r.samples.append(h[:8])
    for gi, ei, ms in bad:
        h, conc = jobs[gi]
        for m in ms:
            r.custom(m, 100 * len(h) + sum(map(len, conc["texts"].values())),
                     {"kind": "conversation", "hist": h, "uris": conc["uris"], "texts": conc["texts"],
                      "questions": conc["questions"], "rng": conc["seed"]})


def conc_of(seed, i, questions):
    rng = random.Random("c%d/%d" % (seed, i))
    ts = some_texts(rng, seed * 100003 + i, 4)
    qs = some_questions(rng, ts, len(questions), i * len(questions))
    return {"uris": URIS, "texts": dict(zip(["t1", "t2", "t3", "t4"], ts)), "questions": dict(zip(questions, qs)),
            "rng": random.Random(i), "seed": i}


def replay_conversation(r, p):
    for m in p["hist"]:
        print(m)
    print(p["texts"], p["questions"])
    qs = {k: tuple(v) for k, v in p["questions"].items()}
    judge_conversations(r, [(p["hist"], {"uris": p["uris"], "texts": p["texts"], "questions": qs,
                                         "rng": random.Random(p["rng"]), "seed": p["rng"]})])


REPLAYS["conversation"] = replay_conversation


@prop("W15")
def w15(r):
    hs = server.histories(5 if r.thorough else 4)
    r.extra["exhaustive_conversation_length"] = 5 if r.thorough else 4
    sims = {}
    for h in server.histories(16, r.n(300), r.seed):
        sims[json.dumps(h[:12])] = h
    jobs = [(h, conc_of(r.seed, i, ["q"])) for i, h in enumerate(hs)]
    jobs += [(h, conc_of(r.seed, 10 ** 6 + i, ["q1", "q2", "q3", "q4", "q5", "q6"])) for i, h in enumerate(sims.values())]
    judge_conversations(r, jobs)


def judge_offers(r, jobs):
    groups = server.offers(jobs, r.pid)
    bad, st = tlc.validate(groups, module="TraceServer")
    r.count(st, len(groups))
    for j, g in zip(jobs, groups):
        r.distinct.add(hash(json.dumps(g[0], sort_keys=True)))
        if len(r.samples) < 3:
            r.samples.append(g[0]["features"][:6])
    for gi, ei, ms in bad:
        for m in ms:
            r.custom(m, len(jobs[gi][1]), {"kind": "offer", "job": list(jobs[gi])})


REPLAYS["offer"] = lambda r, p: judge_offers(r, [tuple(p["job"])])


@prop("W25")
def w25(r):
    jobs = []
    for i in range(r.n(150)):
        d = gen.make(r.seed * 1000003 + i, fields=(1, 3), instrs=(0, 3), depth=2)
        jobs.append((r.seed * 1000003 + i, d.text if i % 3 else "(module (func (param i32 i32) (result i32 i64)))"))
    judge_offers(r, jobs)


def judge_histories(r, jobs):
    groups = history.record(jobs, r.pid)
    bad, st = tlc.validate(groups, module="TraceServer")
    r.count(st, len(groups))
    for j in jobs:
        r.distinct.update(hash(s[2]) for s in j if s[0] == "put")
        if len(r.samples) < 3:
            r.samples.append([list(s) for s in j[:3]])
    for gi, ei, ms in bad:
        for m in ms:
            r.custom(m, sum(len(s[2]) for s in jobs[gi] if s[0] == "put"), {"kind": "history", "steps": jobs[gi]})


def replay_history(r, p):
    for s in p["steps"]:
        print(s)
    judge_histories(r, [[(s[0], s[1], tuple(s[2]) if s[0] == "ask" else s[2]) for s in p["steps"]]])


REPLAYS["history"] = replay_history


@prop("W13")
def w13(r):
    jobs = []
    for i in range(r.n(700)):
        jobs.append(history.session(r.seed * 1000003 + i, thorough=r.thorough))
    # all short histories over few texts that are edits of one another
    for i in range(r.n(6)):
        jobs += history.exhaustive(r.seed * 7 + i, 4 if r.thorough else 3)
    judge_histories(r, jobs)
