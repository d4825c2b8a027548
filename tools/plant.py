#!/usr/bin/env python3
"""plant.py ID... : confirm planted bugs in a scratch copy of /repo (build, stable tests, demo on both trees) and
then run the check of their property with the patch applied to /repo itself."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant-scratch"


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    args = sys.argv[1:]
    checks = "--no-check" not in args
    ids = [a for a in args if not a.startswith("-")]
    sh("rm -rf %s && cp -a /repo %s" % (S, S), "/")
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        sh("git checkout -q -- .", S)
        build = "source /opt/vp/env.sh; unset CARGO_TARGET_DIR; cargo build --workspace --all-features --offline --locked"
        assert sh(build, S).returncode == 0
        a = sh("bash %s/demo.sh" % d, S, timeout=300)
        p = sh("git apply %s/patch.diff" % d, S)
        if p.returncode:
            print(i, "PATCH DOES NOT APPLY", p.stdout.decode()); continue
        b = sh(build, S)
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stdout.decode()[-1500:]); continue
        t = sh("source /opt/vp/env.sh; unset CARGO_TARGET_DIR; cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8", S)
        failed = sorted(l.split()[1] for l in t.stdout.decode().split("\n") if l.startswith("test ") and l.endswith("FAILED"))
        c = sh("bash %s/demo.sh" % d, S, timeout=300)
        ok = a.returncode == 0 and c.returncode != 0 and not failed and t.returncode == 0
        print(i, meta["property"], "OK" if ok else "BAD", "demo", a.returncode, c.returncode, "failed tests", failed[:5])
        if not ok:
            print(a.stdout.decode()[-500:], c.stdout.decode()[-500:], t.stdout.decode()[-300:] if not failed and t.returncode else "")
        if ok and checks:
            assert sh("git status --porcelain", "/repo").stdout == b"", "/repo not clean"
            sh("git apply %s/patch.diff" % d, "/repo")
            try:
                r = sh("python3 check.py %s --tier quick" % meta["property"], V)
            finally:
                sh("git checkout -- .", "/repo")
            print("   check:", r.returncode, r.stdout.decode().strip().split("\n")[-1][:200])
        sys.stdout.flush()
    sh("rm -rf %s" % S, "/")


main()
