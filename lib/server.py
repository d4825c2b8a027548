"""Conversations with the real server binary, as events of spec/TraceServer.tla."""
import hashlib, json, os, queue, random, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import driver, gen, tlc
VERIF = driver.VERIF
SERVER = os.path.join(VERIF, "build/target/debug/wat_server")
TYPES = ["type", "parameter", "variable", "function", "keyword", "comment", "string", "number", "operator"]
METHODS = {"prepareCallHierarchy": "textDocument/prepareCallHierarchy", "incomingCalls": "callHierarchy/incomingCalls",
           "outgoingCalls": "callHierarchy/outgoingCalls", "codeAction": "textDocument/codeAction",
           "completion": "textDocument/completion", "definition": "textDocument/definition",
           "typeDefinition": "textDocument/typeDefinition", "declaration": "textDocument/declaration",
           "pullDiagnostics": "textDocument/diagnostic", "documentSymbol": "textDocument/documentSymbol",
           "foldingRange": "textDocument/foldingRange", "formatting": "textDocument/formatting",
           "rangeFormatting": "textDocument/rangeFormatting", "hover": "textDocument/hover",
           "inlayHint": "textDocument/inlayHint", "references": "textDocument/references",
           "prepareRename": "textDocument/prepareRename", "rename": "textDocument/rename",
           "selectionRange": "textDocument/selectionRange", "semanticTokensFull": "textDocument/semanticTokens/full",
           "semanticTokensRange": "textDocument/semanticTokens/range"}


def init_params(pull):
    td = {"semanticTokens": {"requests": {}, "tokenTypes": TYPES, "tokenModifiers": [], "formats": []}}
    if pull:
        td["diagnostic"] = {}
    return {"processId": None, "rootUri": None, "capabilities": {"textDocument": td}}


def params(q, uri, text):
    """q = (method, offset, offset2): the parameters of the question for a text"""
    m, o, o2 = q
    p = gen.Positions(text)
    o, o2 = min(o, len(text)), min(o2, len(text))
    if o > o2:
        o, o2 = o2, o
    td = {"uri": uri}
    at, rg = p.pos(o), p.range(o, o2)
    if m in ("incomingCalls", "outgoingCalls"):
        return {"item": {"name": "f", "kind": 12, "uri": uri, "range": rg, "selectionRange": rg}}
    d = {"textDocument": td}
    if m in ("pullDiagnostics", "documentSymbol", "foldingRange", "semanticTokensFull"):
        return d
    if m == "formatting":
        return dict(d, options={"tabSize": 2, "insertSpaces": True})
    if m == "rangeFormatting":
        return dict(d, range=rg, options={"tabSize": 2, "insertSpaces": True})
    if m in ("inlayHint", "semanticTokensRange"):
        return dict(d, range=rg)
    if m == "codeAction":
        return dict(d, range=rg, context={"diagnostics": []})
    if m == "selectionRange":
        return dict(d, positions=[at, p.pos(o2)])
    if m == "references":
        return dict(d, position=at, context={"includeDeclaration": o2 % 2 == 0})
    if m == "rename":
        return dict(d, position=at, newName="$fresh")
    return dict(d, position=at)


def canon(m, a, uri):
    """an answer as a short string, the document's uri masked"""
    if m == "pullDiagnostics" and isinstance(a, dict):
        a = a.get("items", a)
    if m == "publishDiagnostics" and isinstance(a, dict):
        a = a.get("diagnostics", a)
    if m in ("pullDiagnostics", "publishDiagnostics", "documentSymbol") and isinstance(a, list):
        # the order of diagnostics and of modules in the outline means nothing
        a = sorted(a, key=lambda d: json.dumps(d, sort_keys=True))
    s = json.dumps(a, sort_keys=True).replace(uri, "DOC")
    return s if len(s) < 160 else s[:120] + "#" + hashlib.sha1(s.encode()).hexdigest()[:16]


def fresh(pairs, uri="file:///fresh.wat"):
    """pairs (text, q) -> what a service that was only ever given that text answers; memo: dict"""
    by = {}
    for t, q in pairs:
        by.setdefault(t, set()).add(q)
    keys = list(by)
    sess = []
    for t in keys:
        ops = [{"op": "new", "init": init_params(True)}, {"op": "commit", "uri": uri, "text": t}]
        for q in sorted(by[t]):
            if q[0] == "diagnostics":
                ops.append({"op": "q", "m": "pullDiagnostics", "p": {"textDocument": {"uri": uri}}})
            else:
                ops.append({"op": "q", "m": q[0], "p": params(q, uri, t)})
        sess.append(ops)
    memo = {}
    for t, res in zip(keys, driver.run_sessions(sess)):
        for q, r in zip(sorted(by[t]), res[2:]):
            m = "pullDiagnostics" if q[0] == "diagnostics" else q[0]
            memo[t, q] = canon(m, r["ok"], uri) if "ok" in r else "CRASH"
    return memo


class Client:
    def __init__(self):
        self.p = subprocess.Popen([SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue()
        threading.Thread(target=self.reader, daemon=True).start()

    def reader(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                while True:
                    l = f.readline()
                    if not l:
                        raise EOFError
                    l = l.strip()
                    if not l:
                        break
                    if l.lower().startswith(b"content-length:"):
                        n = int(l.split(b":")[1])
                self.q.put(json.loads(f.read(n)))
        except Exception:
            self.q.put(None)

    def send(self, m):
        b = json.dumps(dict(m, jsonrpc="2.0")).encode()
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
            self.p.stdin.flush()
            return True
        except OSError:
            return False

    def get(self, timeout):
        try:
            return self.q.get(timeout=timeout)
        except queue.Empty:
            return "silence"


BAD = [None, {"textDocument": 5}, {"textDocument": {"uri": 3}, "position": {}}, [1, 2], {"position": {"line": -1, "character": 0}},
       {"item": 3}, "x"]
UNKNOWN = ["textDocument/nothing", "workspace/symbol", "textDocument/documentLink", "$/whatever", "workspace/executeCommand",
           "textDocument/implementation", "textDocument/onTypeFormatting"]


def converse(hist, conc, prop, timeout=20):
    """play a conversation (messages of spec/WatServer.tla) to a server.
    conc: uris, texts (id -> string), questions (id -> q), rng"""
    c = Client()
    ev, asked = [], {}
    rng = conc["rng"]
    uris, texts, questions = conc["uris"], conc["texts"], conc["questions"]
    back = {v: k for k, v in uris.items()}
    cur = {}
    alive = True

    def out(r):
        if r is None:
            return False
        if r == "silence":
            return True
        if "method" in r and "id" not in r:
            if r["method"] == "textDocument/publishDiagnostics":
                u = r["params"]["uri"]
                ev.append({"e": "out", "p": prop, "k": "publish", "id": 0, "u": back.get(u, u),
                           "a": canon("pullDiagnostics", r["params"]["diagnostics"], u)})
            else:
                ev.append({"e": "out", "p": prop, "k": r["method"], "id": 0, "u": "", "a": ""})
        else:
            m, u = asked.get(r.get("id"), ("", "DOC"))
            bad = r.get("error") is not None
            ev.append({"e": "out", "p": prop, "k": "error" if bad else "result", "id": r.get("id"), "u": "",
                       "a": canon(m, {"err": r["error"].get("message")} if bad else
                                  ({"ok": r.get("result")} if m == "rename" else r.get("result")), u)})
        return True

    def pump(rid):
        while True:
            r = c.get(timeout)
            if not out(r):
                return False
            if r == "silence":
                return False
            if r.get("id") == rid:
                return True

    for m in hist + [{"k": "shutdown", "id": 99}]:
        k = m["k"]
        ev.append({"e": "in", "m": m})
        if k == "initialize":
            c.send({"id": m["id"], "method": "initialize", "params": init_params(m["pull"])})
            alive = pump(m["id"])
            c.send({"method": "initialized", "params": {}})
        elif k == "open":
            cur[m["u"]] = texts[m["t"]]
            c.send({"method": "textDocument/didOpen", "params": {"textDocument": {
                "uri": uris[m["u"]], "languageId": "wat", "version": 1, "text": texts[m["t"]]}}})
        elif k == "change":
            if m["ts"]:
                cur[m["u"]] = texts[m["ts"][-1]]
            c.send({"method": "textDocument/didChange", "params": {
                "textDocument": {"uri": uris[m["u"]], "version": 2}, "contentChanges": [{"text": texts[t]} for t in m["ts"]]}})
        elif k == "close":
            c.send({"method": "textDocument/didClose", "params": {"textDocument": {"uri": uris[m["u"]]}}})
        elif k == "ask":
            q, u = questions[m["q"]], uris[m["u"]]
            asked[m["id"]] = (q[0], u)
            c.send({"id": m["id"], "method": METHODS[q[0]], "params": params(q, u, cur.get(m["u"], "(module)"))})
            alive = pump(m["id"])
        elif k == "malformed":
            c.send({"id": m["id"], "method": rng.choice(list(METHODS.values())), "params": rng.choice(BAD)})
            alive = pump(m["id"])
        elif k == "unknown":
            c.send({"id": m["id"], "method": rng.choice(UNKNOWN), "params": rng.choice(BAD[1:4])})
            alive = pump(m["id"])
        elif k == "note":
            c.send({"method": rng.choice(["$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration",
                                          "textDocument/didSave", "x/y"]), "params": {"id": 1}})
        elif k == "badnote":
            c.send({"method": rng.choice(["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"]),
                    "params": rng.choice(BAD)})
        elif k == "response":
            c.send({"id": 1000, "result": None})
        elif k == "shutdown":
            c.send({"id": m["id"], "method": "shutdown"})
            alive = pump(m["id"])
            c.send({"method": "exit"})
        if not alive:
            break
    code = -1
    try:
        c.p.stdin.close()
    except OSError:
        pass
    try:
        code = c.p.wait(timeout if alive else 0.5)
        while True:
            r = c.get(2 if alive else 0.2)
            if r == "silence" or not out(r):
                break
    except subprocess.TimeoutExpired:
        c.p.kill()
        c.p.wait()
    ev.append({"e": "ended", "p": prop, "code": code})
    c.p.stdout.close()
    return ev, alive and code == 0


def conversations(jobs, prop):
    """jobs: (hist, conc) -> groups.  When the server keeps falling silent, the rest is not tried."""
    dead = [0]

    def one(j):
        if dead[0] >= 20:
            return None
        ev, well = converse(j[0], j[1], prop)
        dead[0] += not well
        return ev
    with ThreadPoolExecutor(10) as ex:
        evs = list(ex.map(one, jobs))
    jobs[:] = [j for j, ev in zip(jobs, evs) if ev is not None]
    evs = [ev for ev in evs if ev is not None]
    need = set()
    for (h, conc), ev in zip(jobs, evs):
        need |= {(t, conc["questions"].get(q, (q, 0, 0))) for t, q in wanted(h, conc)}
    memo = fresh(need)
    groups = []
    for (h, conc), ev in zip(jobs, evs):
        ms = []
        for t, q in sorted(set(wanted_ids(h))):
            ms.append({"e": "memo", "t": t, "q": q, "a": memo[conc["texts"][t], conc["questions"].get(q, (q, 0, 0))]})
        groups.append(ms + ev)
    return groups


def wanted_ids(h):
    cur = {}
    for m in h:
        if m["k"] == "open":
            cur[m["u"]] = m["t"]
            yield m["t"], "diagnostics"
        elif m["k"] == "change" and m["ts"]:
            cur[m["u"]] = m["ts"][-1]
            yield m["ts"][-1], "diagnostics"
        elif m["k"] == "ask" and m["u"] in cur:
            yield cur[m["u"]], m["q"]


def wanted(h, conc):
    for t, q in wanted_ids(h):
        yield conc["texts"][t], q


def histories(length, simulate=0, seed=1, timeout=300):
    """conversations enumerated (or sampled) by TLC from spec/MCServer.tla"""
    args = ["-simulate", "num=%d" % simulate, "-depth", str(length + 1), "-seed", str(seed)] if simulate else []
    rc, out = tlc.tlc("MCServer", "MCServer.cfg" if not simulate else "MCServerSim.cfg", env={"LENGTH": str(length)}, args=args,
                      timeout=timeout, heap="6g", workers=1 if simulate else 8)
    if rc != 0:
        raise tlc.ToolError("TLC on MCServer (rc %d):\n%s" % (rc, out[-3000:]))
    return [json.loads(s) for s in tlc.tla_strings(out, "@H")]


ASKED = sorted(set(METHODS.values()) | {
    "codeAction/resolve", "completionItem/resolve", "textDocument/implementation", "workspace/diagnostic", "workspace/symbol",
    "textDocument/documentHighlight", "textDocument/onTypeFormatting", "textDocument/signatureHelp", "inlayHint/resolve",
    "textDocument/semanticTokens/full/delta", "textDocument/codeLens", "textDocument/documentLink", "textDocument/documentColor",
    "textDocument/linkedEditingRange", "textDocument/moniker", "textDocument/inlineValue", "textDocument/prepareTypeHierarchy",
    "workspace/executeCommand"})
NAMES = {v: k for k, v in METHODS.items()}


def features(caps, path=""):
    """the names of what is announced: a key counts unless it is false or null"""
    out = []
    for k, v in caps.items():
        if v is None or v is False:
            continue
        out.append(path + k)
        if isinstance(v, dict):
            out += features(v, path + k + ".")
    return out


def client_caps(rng):
    """what some client may say about itself"""
    td = {}
    types = rng.sample(TYPES + ["class", "macro", "x"], rng.randrange(0, 12))
    if rng.random() < 0.8:
        td["semanticTokens"] = {"requests": rng.choice([{}, {"full": True, "range": True}, {"full": {"delta": True}}]),
                                "tokenTypes": types, "tokenModifiers": [], "formats": ["relative"]}
    else:
        types = []
    if rng.random() < 0.5:
        td["diagnostic"] = {"dynamicRegistration": rng.random() < 0.3}
    for k, v in (("rename", {"prepareSupport": True}), ("rename", {"prepareSupport": False}), ("hover", {"contentFormat": ["plaintext"]}),
                 ("completion", {"completionItem": {"snippetSupport": True}}), ("definition", {"linkSupport": True}),
                 ("documentSymbol", {"hierarchicalDocumentSymbolSupport": False}), ("foldingRange", {"lineFoldingOnly": True}),
                 ("codeAction", {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["quickfix"]}}}),
                 ("synchronization", {"didSave": True, "willSave": True})):
        if rng.random() < 0.3:
            td[k] = v
    p = {"processId": rng.choice([None, 1]), "rootUri": None, "capabilities": {"textDocument": td} if td or rng.random() < 0.5 else {}}
    if rng.random() < 0.3:
        p["capabilities"]["general"] = {"positionEncodings": ["utf-16", "utf-8"]}
    if rng.random() < 0.3:
        p["initializationOptions"] = rng.choice([None, {}, {"format": {"useTabs": True}}])
    if rng.random() < 0.3:
        p["workspaceFolders"] = rng.choice([None, [{"uri": "file:///w", "name": "w"}]])
    return p, types


def offer(seed, text, prop, timeout=20):
    """what the server announces to some client, and what it then answers"""
    rng = random.Random(seed)
    c = Client()
    init, types = client_caps(rng)

    def ask(i, method, ps):
        c.send({"id": i, "method": method, "params": ps})
        while True:
            r = c.get(timeout)
            if r is None or r == "silence":
                return None
            if r.get("id") == i:
                return r
    ev = {"e": "offer", "p": prop, "features": [], "sync": "", "kinds": [], "asked": [], "known": [], "given": [], "types": types,
          "legend": []}
    r = ask(1, "initialize", init)
    if r and "result" in r:
        caps = r["result"]["capabilities"]
        ev["features"] = features(caps)
        y = caps.get("textDocumentSync")
        ev["sync"] = {"openClose": bool(y.get("openClose")), "change": y.get("change")} if isinstance(y, dict) else {"openClose": True, "change": y}
        ca = caps.get("codeActionProvider")
        ev["kinds"] = ca.get("codeActionKinds") or [] if isinstance(ca, dict) else []
        ev["legend"] = ((caps.get("semanticTokensProvider") or {}).get("legend") or {}).get("tokenTypes") or []
        c.send({"method": "initialized", "params": {}})
        u = "file:///a.wat"
        c.send({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "wat", "version": 1, "text": text}}})
        order = ASKED[:]
        rng.shuffle(order)
        for i, m in enumerate(order):
            o, o2 = sorted((rng.randrange(len(text) + 1), rng.randrange(len(text) + 1)))
            q = NAMES.get(m) or rng.choice(["definition", "documentSymbol", "rangeFormatting"])
            if m == "textDocument/codeAction":
                o, o2 = rng.choice([(o, o2), (o, o), (0, len(text))])
            a = ask(10 + i, m, params((q, o, o2), u, text))
            if a is None:
                break
            ev["asked"].append(m)
            # any answer but "no such method" is one
            if not (a.get("error") and a["error"].get("code") == -32601):
                ev["known"].append(m)
            if m == "textDocument/codeAction":
                ev["given"] += [x["kind"] for x in a.get("result") or [] if x.get("kind")]
        else:
            ev["asked"].sort()
    full = len(ev["asked"]) == len(ASKED)
    if full:
        ask(999, "shutdown", None)
        c.send({"method": "exit"})
    try:
        c.p.stdin.close()
    except OSError:
        pass
    try:
        c.p.wait(5 if full else 0.5)
    except subprocess.TimeoutExpired:
        c.p.kill()
        c.p.wait()
    c.p.stdout.close()
    if not full:
        ev["asked"] = ASKED          # what was not answered is unknown
    return ev


def offers(jobs, prop):
    with ThreadPoolExecutor(10) as ex:
        return [[ev] for ev in ex.map(lambda j: offer(j[0], j[1], prop), jobs)]
