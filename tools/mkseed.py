#!/usr/bin/env python3
"""mkseed.py [-f] [-j N] [ID ...]: build /verif/seeded/<id> from tools/seeds/*.py and confirm each one.

Each planted bug is applied in a scratch clone of /repo under /tmp/sc (its own build directory):
it must apply, build, pass the stable tests, its demonstration must pass unchanged and fail with the
change. Then the property's quick check runs against the clone (GUL_REPO) and says whether it catches it.
"""
import concurrent.futures as cf, glob, json, os, queue, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
BASE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", CCACHE_DISABLE="1", LC_ALL="C.UTF-8")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def clone(i):
    d = "%s/r%d" % (SC, i)
    if not os.path.isdir(d):
        os.makedirs(SC, exist_ok=True)
        assert sh("git clone -q /repo %s" % d).returncode == 0
    sh("git checkout -q -- . && git clean -fdq -e _build && git pull -q", cwd=d)
    if not os.path.exists(d + "/_build/build.ninja"):
        sh("meson setup _build . --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Ddocs=false", cwd=d, env=ENV)
    return d

def baseline_names():
    for k in ("passed", "stable", "tests", "pass"):
        if k in BASE: return set(BASE[k])
    return set(BASE)

def touches_original(diff, r):
    """True if every line a hunk removes (or, for pure additions, a neighbouring line) is an original one."""
    base = sh("git rev-list --max-parents=0 HEAD", cwd=r).stdout.strip()
    import re
    f = None; blame = {}
    ok = True; removed = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = {}
            for b in sh("git blame -s -l --root HEAD -- %s" % f, cwd=r).stdout.splitlines():
                m = re.match(r"\^?([0-9a-f]+)\s+(?:\S+\s+)?(\d+)\)", b)
                if m: blame[int(m.group(2))] = base.startswith(m.group(1)[:12]) or m.group(1).startswith(base[:12])
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if f is None or l.startswith(("+", "\\", "diff", "index")): continue
        if l.startswith("-"):
            removed += 1
            ok = ok and blame.get(n, False)
        n += 1
    return ok and removed > 0

DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++14 -O1 -g -pthread %s -I include "$here/demo.cc" src/*.cc -o "$work/demo" || exit 2
cd "$work" && timeout 60 ./demo
'''

def one(s, q, force):
    d = os.path.join(V, "seeded", s["id"])
    r = q.get()
    out = []
    try:
        sh("git checkout -q -- .", cwd=r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1: return s, "EDIT: pattern occurs %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=r).stdout
        if not touches_original(diff, r): return s, "NEW LINES: does not change lines of the original repository only"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cc", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # demo with the change
        x = sh(["bash", d + "/demo.sh"], cwd=r)
        if x.returncode == 0: return s, "DEMO passes with the change"
        if x.returncode == 2 and "error:" in x.stdout: return s, "DEMO does not compile with the change\n" + x.stdout[-1500:]
        demo_msg = x.stdout.strip().splitlines()[-1:] 
        b = sh("ninja -C _build all", cwd=r, env=ENV)
        if b.returncode: return s, "BUILD fails\n" + b.stdout[-1500:]
        t = sh(["python3", "/opt/vp/run_catch.py", r + "/_build/tests/libgul-test", r + "/_build/vp-reports", r + "/_build/out.json"])
        res = json.load(open(r + "/_build/out.json"))
        missing = baseline_names() - set(res["passed"])
        if missing: return s, "TESTS fail: %s" % sorted(missing)[:3]
        c = sh(["python3", "check.py", s["prop"], "quick"], cwd=V, env=dict(os.environ, GUL_REPO=r, GUL_EVIDENCE=r + "/_build/ev", GUL_REPLAYS=r + "/_build/replays"))
        verdict = "caught" if c.returncode == 1 and "VIOLATION property=" + s["prop"] in c.stdout else "MISSED (exit %d)" % c.returncode
        how = [l for l in c.stdout.splitlines() if l.startswith("FAILED")]
        sh("git checkout -q -- .", cwd=r)
        x = sh(["bash", d + "/demo.sh"], cwd=r)
        if x.returncode: return s, "DEMO fails on the unchanged tree: " + x.stdout[-500:]
        return s, "ok %s %s | demo: %s" % (verdict, how[:1], demo_msg)
    finally:
        sh("git checkout -q -- .", cwd=r)
        q.put(r)

def main():
    args = sys.argv[1:]
    force = "-f" in args
    j = 3
    if "-j" in args: j = int(args[args.index("-j") + 1]); del args[args.index("-j"):args.index("-j") + 2]
    ids = [a for a in args if not a.startswith("-")]
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns["SEEDS"]
    assert len({s["id"] for s in seeds}) == len(seeds)
    if ids: seeds = [s for s in seeds if any(s["id"].startswith(i) for i in ids)]
    elif not force: seeds = [s for s in seeds if not os.path.exists(os.path.join(V, "seeded", s["id"], "meta.json"))]
    q = queue.Queue()
    for i in range(min(j, len(seeds))): q.put(clone(i))
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for s, m in ex.map(lambda s: one(s, q, force), seeds):
            print("%-28s %s" % (s["id"], m), flush=True)
            if not m.startswith("ok"):
                bad += 1
                shutil.rmtree(os.path.join(V, "seeded", s["id"]), ignore_errors=True)
    return bad
sys.exit(main())
