"""Run batches of operations through the real code (wat_driver)."""
import json, os, select, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(VERIF, "build/target/debug/wat_driver")

class ToolError(Exception):
    pass

STALL = 60      # an operation takes milliseconds; one that takes this long (s) hangs
HANGS = [0]     # after a few hanging operations the others are no longer tried


def _run(ops):
    """One process.  Returns the answers it gave and why it stopped early (None, "hang", "crash")."""
    data = ("\n".join(json.dumps(o) for o in ops) + "\n").encode()
    p = subprocess.Popen([DRIVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass
    errs = []
    ts = [threading.Thread(target=feed, daemon=True), threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True)]
    for t in ts:
        t.start()
    buf, why, fd = [], None, p.stdout.fileno()
    while True:
        if not select.select([fd], [], [], STALL)[0]:
            p.kill()
            why = "hang"
            break
        b = os.read(fd, 1 << 20)
        if not b:
            break
        buf.append(b)
    rc = p.wait()
    ts[1].join(5)
    p.stdout.close()
    lines = b"".join(buf).split(b"\n")
    if why is None and rc == 3:
        raise ToolError("driver: " + b"".join(errs).decode(errors="replace")[-2000:])
    if why is None and rc != 0:
        why = "crash"
    return [json.loads(l) for l in lines[:-1] if l], why


def run_sessions(sessions, jobs=8):
    """sessions: list of op lists, each independent.  Batched over `jobs` processes; results per session, aligned
    with its operations.  A session that ends the process (abort, stack overflow, hang) has {"panic": ..} for the
    operation that did it, and loses its own tail only."""
    if not sessions:
        return []
    n = max(1, min(jobs, len(sessions)))
    chunks = [list(range(i, len(sessions), n)) for i in range(n)]
    out = [None] * len(sessions)

    def work(chunk):
        while chunk:
            if HANGS[0] >= 8:
                for i in chunk:
                    out[i] = [{"panic": "not tried, too many operations hang"}] * len(sessions[i])
                return
            res, why = _run([o for i in chunk for o in sessions[i]])
            k = 0
            while chunk and len(res) - k >= len(sessions[chunk[0]]):
                i = chunk.pop(0)
                out[i] = res[k:k + len(sessions[i])]
                k += len(sessions[i])
            if why is None:
                return
            if chunk:
                i = chunk.pop(0)
                out[i] = res[k:] + [{"panic": "process died: " + why}]
                out[i] += [{"skipped": True}] * (len(sessions[i]) - len(out[i]))
                HANGS[0] += why == "hang"
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(work, chunks))
    return out
