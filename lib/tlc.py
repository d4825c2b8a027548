"""Run TLC on recorded traces (sharded) and on models."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def tlc(module, cfg=None, env=None, args=(), timeout=600, heap="2g", workers=1):
    meta = tempfile.mkdtemp(prefix="tlc")
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap,
               "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *args, module + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tla_strings(out, mark):
    """strings printed by PrintT that start with mark"""
    for line in out.split("\n"):
        if line.startswith('"' + mark):
            yield json.loads(line)[len(mark):]


def validate(groups, module="Trace", cfg=None, shards=8, timeout=800, heap="3g", env=None):
    """groups: list of event lists, each self-contained (a session).  Returns (mismatches, stats):
    mismatches = [(group index, event index in group, [diffs])]."""
    if not groups:
        return [], {"states": 0, "events": 0, "tags": {}}
    # enough parts to keep every core busy, and none so long that TLC slows down on it
    n = max(1, min(shards, len(groups)))
    while len(groups) / n > 1500:
        n += shards
    # balance by size
    sizes = [sum(len(e.get("nodes", ())) + len(e.get("C", ())) + 5 for e in g) for g in groups]
    order = sorted(range(len(groups)), key=lambda i: -sizes[i])
    load = [0] * n
    parts = [[] for _ in range(n)]
    for i in order:
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += sizes[i]
    tmp = tempfile.mkdtemp(prefix="trace")
    try:
        def work(k):
            path = os.path.join(tmp, "t%d.ndjson" % k)
            index = []
            with open(path, "w") as f:
                for gi in parts[k]:
                    f.write(json.dumps({"e": "reset"}) + "\n")
                    index.append((gi, -1))
                    for ei, e in enumerate(groups[gi]):
                        f.write(json.dumps(e, ensure_ascii=True) + "\n")
                        index.append((gi, ei))
            rc, out = tlc(module, cfg, env=dict(env or {}, TRACE=path), timeout=timeout, heap=heap)
            acc = [json.loads(s) for s in tla_strings(out, "@!")]
            if rc != 0 or not acc or acc[0]["len"] != len(index) or acc[0]["diameter"] != len(index) + 1:
                raise ToolError("TLC did not accept the trace (rc %d):\n%s" % (rc, out[-3000:]))
            bad = []
            for s in tla_strings(out, "@@"):
                v = json.loads(s)
                gi, ei = index[v["l"] - 1]
                bad.append((gi, ei, v["m"]))
            tags = {}
            for s in tla_strings(out, "@#"):
                tags[s] = tags.get(s, 0) + 1
            return bad, acc[0], tags
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(work, range(n)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = sorted((b for r in rs for b in r[0]), key=lambda x: (x[0], x[1]))
    tags = {}
    for r in rs:
        for k, n in r[2].items():
            tags[k] = tags.get(k, 0) + n
    return bad, {"states": sum(r[1]["diameter"] for r in rs), "events": sum(r[1]["len"] for r in rs), "tags": tags}
