#!/usr/bin/env python3
"""Run the property-based check of one property of gul14 against the working tree of /repo.

    check.py <ID> quick|thorough      decide the property
    check.py <ID> --replay FILE       re-run a replay file (exit 1 if it still fails)
    check.py --setup                  verify the toolchain

Everything is compiled from /repo's current tree into a private scratch directory, which is
removed afterwards. Exit 0: held on everything explored. Exit 1 + VIOLATION line: violated.
Exit 2: no answer (toolchain trouble).
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GUL_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.environ.get("GUL_REPLAYS", os.path.join(VERIF, "replays"))
EVIDENCE = os.environ.get("GUL_EVIDENCE", os.path.join(VERIF, "evidence"))

COMMON = ["-std=c++14", "-g1", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS,
          "-D_GLIBCXX_ASSERTIONS", "-w"]
VARIANTS = {
    # the main configuration: memory errors and undefined behaviour are failures as well
    "asan": ("clang++", ["-O1", "-fsanitize=address,undefined",
                         "-fno-sanitize=float-divide-by-zero,float-cast-overflow",
                         "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
    # data races
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"]),
    # controlled schedules and virtual time (harness/vsched.cc), memory errors
    "sched": ("g++", ["-O1", "-DPBT_SCHED", "-fsanitize=address,undefined",
                      "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
    # what users ship: another compiler, optimised
    "gcc": ("g++", ["-O2"]),
    # and another language standard
    "gcc17": ("g++", ["-O2", "-std=c++17"]),
    # coverage-guided search
    "fuzz": ("clang++", ["-O1", "-DPBT_FUZZ", "-fsanitize=address,undefined,fuzzer-no-link",
                         "-fno-sanitize=float-divide-by-zero,float-cast-overflow",
                         "-fno-sanitize-recover=undefined"]),
}
# Properties whose outcome depends on thread schedules.
CONCURRENT = {"C05", "C06", "C07", "C08"}
# How much of the case count the extra (non-main) variants get.
QUICK_VARIANTS = {"C05": ["sched", "tsan"], "C06": ["sched", "tsan"], "C07": ["sched", "tsan"],
                  "C08": ["sched", "tsan"]}
NO_FUZZ = CONCURRENT | {"C31"}
# Share of the case count of the main configuration in the quick tier
GCC_SHARE = 0.35
# Quick checks whose cases are cheap get more of them
QUICK_SCALE = {"C19": 3, "C20": 3, "C21": 4, "C24": 4, "C25": 4, "C29": 3, "C31": 4, "C34": 3}
FUZZ_SECONDS = int(os.environ.get("GUL_FUZZ_SECONDS", "150"))
THOROUGH_SEEDS = 2


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    def __init__(self, what, text):
        super().__init__(what)
        self.what, self.text = what, text


def compile_one(cxx, flags, src, obj):
    cmd = [cxx] + COMMON + flags + ["-c", src, "-o", obj]
    r = None
    for _ in range(2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode == 0:
            return
        if r.returncode == 1 and "error:" in r.stdout:
            break
        time.sleep(1)
    raise BuildError(src, " ".join(cmd) + "\n" + r.stdout)


def lib_sources():
    out = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True)
                 + glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    return [s for s in out if not s.endswith(".in")]


def build(prop, variant, tmp):
    cxx, flags = VARIANTS[variant]
    d = os.path.join(tmp, variant)
    os.makedirs(d)
    jobs, objs = [], []
    srcs = [(s, True) for s in sorted(glob.glob(os.path.join(HARNESS, prop + "*.cc")))]
    srcs.append((os.path.join(HARNESS, "pbt_main.cc"), True))
    if variant == "sched":
        srcs.append((os.path.join(HARNESS, "vsched.cc"), True))
    srcs += [(s, False) for s in lib_sources()]
    errors = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for i, (s, mine) in enumerate(srcs):
            o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
            objs.append(o)
            jobs.append((mine, ex.submit(compile_one, cxx, flags, s, o)))
        for mine, j in jobs:
            try:
                j.result()
            except BuildError as e:
                e.mine = mine
                errors.append(e)
    if errors:
        errors.sort(key=lambda e: e.mine)
        raise errors[0]
    exe = os.path.join(d, prop)
    link = flags + (["-fsanitize=fuzzer"] if variant == "fuzz" else [])
    link = [f for f in link if f != "-fsanitize=address,undefined,fuzzer-no-link"]
    if variant == "sched":
        link += ["-rdynamic", "-ldl"]
    if variant == "fuzz":
        link += ["-fsanitize=address,undefined,fuzzer"]
    cmd = [cxx] + link + ["-pthread"] + objs + ["-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        e = BuildError("link", " ".join(cmd) + "\n" + r.stdout)
        e.mine = False
        raise e
    return exe


def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out


def merge(total, path, variant, seed):
    try:
        with open(path) as f:
            e = json.load(f)
    except (OSError, ValueError):
        return
    c = e["coverage"]
    t = total["coverage"]
    t["evaluations"] += c["evaluations"]
    # The same seed in another build explores the same cases: count those once.
    key = "seed %d" % seed
    t["distinct_by_seed"][key] = max(t["distinct_by_seed"].get(key, 0), c["distinct_nontrivial"])
    t["rule"] = c["rule"]
    t["samples"] = (t["samples"] + c["samples"])[:8]
    for k, v in c["classification"].items():
        t["classification"][k] = t["classification"].get(k, 0) + v
    t["unconfirmed_failures"] += c["unconfirmed_failures"]
    t["runs"].append({"build": variant, "seed": seed, "cases": c["evaluations"],
                      "planned": c["planned"], "distinct_nontrivial": c["distinct_nontrivial"],
                      "wall_s": e["wall_s"]})
    total["assumptions"] = e["assumptions"]


def fuzz(prop, exe, main_exe, tmp, seed, seconds, total):
    """Coverage-guided search over the same facets: 8 independent libFuzzer processes."""
    procs = []
    t0 = time.time()
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    for w in range(8):
        art = os.path.join(tmp, "art%d_" % w)
        cmd = [exe, corpus, "-max_total_time=%d" % seconds, "-seed=%d" % (seed * 100 + w),
               "-max_len=600", "-len_control=20", "-artifact_prefix=" + art, "-timeout=30",
               "-rss_limit_mb=3000", "-print_final_stats=1", "-reload=5", "-verbosity=1",
               "-detect_leaks=0"]
        lf = open(os.path.join(tmp, "fuzz%d.log" % w), "w+")
        procs.append((subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=tmp,
                                       start_new_session=True), lf))
    for p, lf in procs:
        try:
            p.wait(timeout=max(1, seconds * 2 + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    execs, cov = 0, 0
    for p, lf in procs:
        lf.seek(0)
        txt = lf.read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", txt)
        if m:
            execs += int(m[-1])
        m = re.findall(r"\bcov: (\d+)", txt)
        if m:
            cov = max(cov, int(m[-1]))
        lf.close()
    total["coverage"]["fuzzing"] = {"engine": "libFuzzer", "seconds": seconds, "processes": 8,
                                    "executions": execs, "edges_covered": cov,
                                    "corpus": len(os.listdir(corpus))}
    total["coverage"]["evaluations"] += execs
    for a in sorted(glob.glob(os.path.join(tmp, "art*_crash-*"))
                    + glob.glob(os.path.join(tmp, "art*_timeout-*"))):
        rc, out = run([main_exe, "--prop", prop, "--tier", "thorough", "--replay-dir", REPLAYS,
                       "--tag", "fuzz", "--from-bytes", a], 600)
        if rc == 1 and "VIOLATION property=" in out:
            return out
        log("fuzzer input %s did not reproduce in the main build" % os.path.basename(a))
    return None


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known:\s+property=(\S+)\s+(.*)", line)
                if m and m.group(1) == prop:
                    out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        ok = all(shutil.which(x) for x in ("clang++", "g++"))
        log("toolchain", "ok" if ok else "incomplete")
        return 0 if ok else 2
    prop, tier = sys.argv[1], sys.argv[2]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tmp = tempfile.mkdtemp(prefix="gulcheck_")
    try:
        return decide(prop, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, tmp):
    t0 = time.time()
    replay = None
    if tier == "--replay":
        replay, tier = os.path.abspath(sys.argv[3]), "quick"
    variants = list(QUICK_VARIANTS.get(prop, ["asan", "gcc"]))
    if tier == "thorough" and prop not in CONCURRENT:
        variants.append("gcc17")
    for a in sys.argv[3:]:
        if a.startswith("--variants="):
            variants = a.split("=", 1)[1].split(",")
    scale = [a.split("=", 1)[1] for a in sys.argv[3:] if a.startswith("--scale=")]
    scale = float(scale[-1]) if scale else QUICK_SCALE.get(prop, 1) if tier == "quick" else 1
    extra = [x for a in sys.argv[3:] if a.startswith("--only=")
              for x in ("--only", a.split("=", 1)[1])]
    if "--stats" in sys.argv:
        extra.append("--stats")

    evidence = os.path.join(EVIDENCE, prop + ".json")
    total = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
             "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
                          "classification": {}, "unconfirmed_failures": [], "runs": [],
                          "distinct_by_seed": {}, "skipped": []},
             "assumptions": [], "wall_s": 0.0, "violations": 0}

    def finish(violations):
        total["violations"] = violations
        total["wall_s"] = round(time.time() - t0, 2)
        c = total["coverage"]
        c["distinct_nontrivial"] = sum(c["distinct_by_seed"].values())
        if not replay:
            with open(evidence, "w") as f:
                json.dump(total, f, indent=1)
        return 1 if violations else 0

    exes = {}
    try:
        for v in variants:
            exes[v] = build(prop, v, tmp)
    except BuildError as e:
        log(e.text[-6000:])
        if not e.mine:
            log("NO ANSWER: the library itself does not compile")
            return 2
        # The library compiles but the public interface the property talks about does not:
        # report it with the compiler output as the reproduction.
        path = os.path.join(REPLAYS, prop + "-compile.txt")
        with open(path, "w") as f:
            f.write("property %s\nThe harness uses only the public interface and does not compile "
                    "against this tree:\n%s\n" % (prop, e.text))
        total["coverage"]["rule"] = "n/a: harness does not compile"
        finish(1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("%s: built %s from %s in %.1f s" % (prop, ",".join(variants), REPO, time.time() - t0))

    if replay:
        worst = 0
        for v in variants:
            rc, out = run([exes[v], "--prop", prop, "--replay", replay], 900)
            log("[%s]\n%s" % (v, out))
            worst = max(worst, 1 if rc == 1 else 0)
        return worst

    for k in known_findings(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, k))

    seeds = [seed] if tier == "quick" else [seed * 1000 + i for i in range(THOROUGH_SEEDS)]
    for s in seeds:
        for v in variants:
            if v == "tsan":
                rc, out = run([exes[v], "--smoke"], 60)
                if rc != 0:  # e.g. an address-space layout ThreadSanitizer cannot map
                    total["coverage"]["skipped"].append("tsan build does not start here: "
                                                        + out[-200:])
                    log("tsan build does not start here; skipped")
                    continue
            ev = os.path.join(tmp, "ev_%s_%d.json" % (v, s))
            share = GCC_SHARE if tier == "quick" and v.startswith("gcc") else 1
            # (other cases than those of the main configuration)
            sv = s + 7919 if v.startswith("gcc") else s
            cmd = [exes[v], "--prop", prop, "--tier", tier, "--seed", str(sv), "--evidence", ev,
                   "--scale", "%g" % (scale * share), "--replay-dir", REPLAYS, "--tag", v] + extra
            rc, out = -1, ""
            for attempt in range(2):
                rc, out = run(cmd, 840 if tier == "quick" else 14000)
                if rc in (0, 1):
                    break
                log("run of the %s build ended with status %d:\n%s" % (v, rc, out[-2000:]))
            log(out.rstrip())
            merge(total, ev, v, sv)
            if rc == 1 and re.search(r"^VIOLATION property=", out, re.M):
                return finish(1)
            if rc != 0:
                log("NO ANSWER: the %s build ended with status %d" % (v, rc))
                finish(0)
                return 2
    if tier == "thorough" and prop not in NO_FUZZ and FUZZ_SECONDS > 0:
        fexe = build(prop, "fuzz", tmp)
        out = fuzz(prop, fexe, exes["asan"], tmp, seed, FUZZ_SECONDS, total)
        if out is not None:
            log(out.rstrip())
            return finish(1)
        log("%s fuzzing: %s" % (prop, total["coverage"]["fuzzing"]))
    return finish(0)


if __name__ == "__main__":
    sys.exit(main())
