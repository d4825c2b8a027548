"""A minimal LSP client for the server built in ./target/debug (run with cwd = the repository)."""
import json, os, subprocess, sys


class Lsp:
    def __init__(self, caps=None, options=None):
        self.p = subprocess.Popen([os.path.join(os.getcwd(), "target/debug/wat_server")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0
        self.notes = []
        self.req("initialize", {"processId": None, "rootUri": None,
                                "capabilities": caps or {"textDocument": {"diagnostic": {}}},
                                "initializationOptions": options or {}})
        self.note("initialized", {})

    def send(self, m):
        b = json.dumps(dict(m, jsonrpc="2.0")).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def recv(self):
        n = 0
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise SystemExit("FAIL: the server went away")
            l = l.strip()
            if not l:
                break
            if l.lower().startswith(b"content-length:"):
                n = int(l.split(b":")[1])
        return json.loads(self.p.stdout.read(n))

    def note(self, m, p):
        self.send({"method": m, "params": p})

    def req(self, m, p, full=False):
        self.n += 1
        self.send({"id": self.n, "method": m, "params": p})
        while True:
            r = self.recv()
            if "method" in r:
                if "id" in r:
                    self.send({"id": r["id"], "result": [{}]})
                self.notes.append(r)
                continue
            if r.get("id") == self.n:
                return r if full else r.get("result")

    def open(self, text, uri="file:///t.wat", version=1):
        self.note("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "wat",
                                                            "version": version, "text": text}})

    def change(self, text, uri="file:///t.wat", version=2):
        self.note("textDocument/didChange", {"textDocument": {"uri": uri, "version": version},
                                             "contentChanges": [{"text": text}]})

    def at(self, text, off, uri="file:///t.wat"):
        return {"textDocument": {"uri": uri}, "position": pos(text, off)}

    def diagnostics(self, uri="file:///t.wat"):
        r = self.req("textDocument/diagnostic", {"textDocument": {"uri": uri}})
        return r["items"]

    def stop(self):
        self.p.stdin.close()
        self.p.kill()
        self.p.wait()


def pos(text, off):
    before = text[:off]
    line = before.count("\n")
    col = before[before.rfind("\n") + 1:]
    return {"line": line, "character": len(col.encode("utf-16-le")) // 2}


def cut(text, rng):
    """the text a range covers (ASCII documents)"""
    ls = text.split("\n")
    def off(p):
        return sum(len(l) + 1 for l in ls[:p["line"]]) + p["character"]
    return text[off(rng["start"]):off(rng["end"])]


def nth(text, sub, n=1):
    """offset of the middle of the n-th occurrence of sub"""
    i = -1
    for _ in range(n):
        i = text.index(sub, i + 1)
    return i + len(sub) // 2


def expect(what, got, want):
    if got != want:
        print("FAIL %s\n  got  %s\n  want %s" % (what, got, want))
        sys.exit(1)
