#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | check.py --replay <file>

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.  Exit 2: tool error.
"""
import argparse, json, os, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))


def build(server):
    """rebuild the driver (and the server) from /repo's working tree"""
    cmd = (". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/build/target; cd %s/harness && "
           "cargo build --offline --locked 2>&1") % (VERIF, VERIF)
    if server:
        cmd += " && cd /repo && cargo build --offline --locked -p wat_server 2>&1"
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
        print("TOOL-ERROR: build failed")
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    if not a.no_build:
        build(a.prop in ("build", "W15") or a.replay)
    if a.prop == "build":
        return 0
    import props
    if a.replay:
        return props.replay(a.replay)
    return props.check(a.prop, a.tier, a.seed, a.scale)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("TOOL-ERROR")
        sys.exit(2)
