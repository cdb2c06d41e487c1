#!/usr/bin/env python3
"""Random syntactic mutations of the library, to find what the checks miss.
usage: mutate.py [-j N] [-s SEED] FILE:COUNT ...   (survivors are printed as diffs)
Works in scratch copies; /repo is not touched. No check uses this."""
import sys, os, re, random, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/gul14/"; S = "src/"
MAP = {I+"SmallVector.h": ["C01", "C02"], I+"SlidingBuffer.h": ["C03", "C04"], S+"ThreadPool.cc": ["C06", "C05", "C07"],
 I+"ThreadPool.h": ["C06", "C05", "C07"], I+"Trigger.h": ["C08"], S+"Trigger.cc": ["C08"], I+"time_util.h": ["C08"], S+"time_util.cc": ["C08"],
 I+"join_split.h": ["C09"], I+"tokenize.h": ["C10"], S+"tokenize.cc": ["C10"], I+"trim.h": ["C11"], S+"trim.cc": ["C11"],
 I+"replace.h": ["C12"], S+"replace.cc": ["C12"], S+"escape.cc": ["C13"], I+"case_ascii.h": ["C14"], S+"case_ascii.cc": ["C14"],
 I+"substring_checks.h": ["C15"], S+"substring_checks.cc": ["C15"], I+"string_view.h": ["C16"], I+"to_number.h": ["C17", "C18"],
 I+"hexdump.h": ["C19"], I+"string_util.h": ["C20"], S+"string_util.cc": ["C20"], I+"cat.h": ["C21"], S+"cat.cc": ["C21"],
 I+"statistics.h": ["C22", "C23"], I+"num_util.h": ["C24"], I+"gcd_lcm.h": ["C25"], I+"bit_manip.h": ["C26"],
 I+"optional.h": ["C27"], I+"variant.h": ["C28"], I+"expected.h": ["C29"], I+"span.h": ["C30"], I+"finalizer.h": ["C31"],
 I+"date.h": ["C33", "C32"], I+"traits.h": ["C34"], I+"type_name.h": ["C34"]}

def mutations(text):
    """(offset, length, replacement, kind) for every possible mutation."""
    # blank out comments, strings and preprocessor lines
    def blank(m): return re.sub(r"[^\n]", " ", m.group(0))
    t = re.sub(r"/\*.*?\*/", blank, text, flags=re.S)
    t = re.sub(r"//[^\n]*", blank, t)
    t = re.sub(r"(?m)^[ \t]*#[^\n]*(\\\n[^\n]*)*", blank, t)
    t = re.sub(r'"(\\.|[^"\\\n])*"', blank, t)
    t = re.sub(r"(?m)^[^\n]*\b(static_assert|template|enable_if|noexcept\(|using|typedef)\b[^\n]*", blank, t)
    out = []
    def add(rx, f, kind):
        for m in re.finditer(rx, t):
            r = f(m)
            if r is not None and r != m.group(0):
                for x in (r if isinstance(r, list) else [r]):
                    out.append((m.start(), m.end() - m.start(), x, kind))
    swap = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "and": ["or"], "or": ["and"],
            "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["/"], "+=": ["-="], "-=": ["+="], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"]}
    add(r"(?<= )(<=|>=|==|!=|&&|\|\||and|or|<|>|\+=|-=|\+|-|\*|/|%)(?= )", lambda m: swap[m.group(0)], "op")
    add(r"(?<=[\w)])(\+|-|%|/)(?=[\w(])", lambda m: swap[m.group(0)], "op")
    add(r"\+\+", lambda m: "--", "incr")
    add(r"\b\d+\b(?![.\w])", lambda m: [str(int(m.group(0)) + 1)] + ([str(int(m.group(0)) - 1)] if int(m.group(0)) > 0 else []) if len(m.group(0)) < 9 and not (m.group(0)[0] == "0" and len(m.group(0)) > 1) else None, "const")
    add(r"\b(true|false)\b", lambda m: "false" if m.group(0) == "true" else "true", "bool")
    add(r"(?<=[( ])(!|not )(?=[\w(])", lambda m: "", "negation")
    add(r"(?m)(?<=\n)[ \t]+(?!return\b|using\b|typedef\b|break\b|goto\b|throw\b|friend\b|auto\b|const\b|constexpr\b|std::\w+ \w|[\w:<>]+[ *&]+\w+( =|;|\{|\())[A-Za-z_*:][^\n;{}]*;(?=[ \t]*\n)", lambda m: re.match(r"[ \t]+", m.group(0)).group(0) + ";", "statement")
    add(r"(?<=if \()(?!!|not )(?=\w)", lambda m: None, "")
    return out

def run(cmd, env=None, timeout=900):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)
    return p.returncode, p.stdout

def one(args):
    f, off, n, r, kind, idx = args
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        os.makedirs(tmp + "/r"); shutil.copytree("/repo/include", tmp + "/r/include"); shutil.copytree("/repo/src", tmp + "/r/src")
        p = tmp + "/r/" + f
        t = open(p).read()
        line = t.count("\n", 0, off) + 1
        new = t[:off] + r + t[off + n:]
        open(p, "w").write(new)
        before, after = t.split("\n")[line - 1], new.split("\n")[line - 1]
        env = dict(os.environ, GUL_REPO=tmp + "/r", GUL_EVIDENCE=tmp + "/e", GUL_REPLAYS=tmp + "/p")
        desc = "%s:%d [%s]\n    - %s\n    + %s" % (f, line, kind, before.strip(), after.strip())
        for prop in MAP[f]:
            try: rc, out = run([sys.executable, V + "/check.py", prop, "quick"], env)
            except subprocess.TimeoutExpired: return "timeout", desc
            if "does not compile" in out or rc == 2 and "NO ANSWER: the library itself" in out or "n/a: harness" in out or (rc == 1 and "error:" in out and "-compile" in out): return "nocompile", desc
            if rc == 1: return "killed", desc
            if rc != 0: return "noanswer(%s)" % out[-300:], desc
        return "SURVIVED", desc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    j, seed, todo = 3, 1, []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "-j": j = int(a.pop(0))
        elif x == "-s": seed = int(a.pop(0))
        else: todo.append(x)
    rnd = random.Random(seed)
    jobs = []
    for x in todo:
        f, _, k = x.rpartition(":")
        if not f.startswith(("include", "src")): f = (S if f.endswith(".cc") else I) + f
        ms = mutations(open("/repo/" + f).read())
        for i, m in enumerate(rnd.sample(ms, min(int(k), len(ms)))): jobs.append((f,) + m + (i,))
    count = {}
    with cf.ThreadPoolExecutor(j) as ex:
        for st, d in ex.map(one, jobs):
            count[st.split("(")[0]] = count.get(st.split("(")[0], 0) + 1
            if st not in ("killed", "nocompile"): print(st, d, flush=True)
    print(count, flush=True)
main()
