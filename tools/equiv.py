#!/usr/bin/env python3
"""equiv.py gen SEED OUTDIR: random rewordings of /repo/src that keep the behaviour (exact reals), one
file at a time; equiv.py run OUTDIR WORKERS [ids]: every check on each must stay quiet.  Works under /tmp/eqv."""
import json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
W = "/tmp/eqv"
ID = r"[A-Za-z_]\w*(?:\.[A-Za-z_0-9]\w*|\[[^\[\]]*\]|\([^()]*\))*"
NUMFN = r"(?:T::\w+\([^()]*\)|" + ID + ")"
SC = r"(?:[a-z]\w*(?:\[\([^()]*\)\])|self\[\d\]|rhs\[\d\]|one|two|half|theta|T::\w+\([^()]*\)|lu\[[^\[\]]*\]|a\d*|b\d*|t|d|x|y|z|w)"
RULES = [
    ("swap+", r"(?<=[=(,{] )(%s) \+ (%s)(?=[;),])" % (SC, SC), r"\2 + \1"),
    ("swap*", r"(?<![/%%] )(?<!\w|\.)(%s) \* (%s)(?![\w.\[(])" % (SC, SC), r"\2 * \1"),
    ("neg-", r"(?<=[=(,] )(%s) - (%s)(?=[;),])" % (SC, SC), r"-(\2 - \1)"),
    ("flip<", r"(?<=if )(%s) < (%s)(?= \{)" % (ID, NUMFN), r"\2 > \1"),
    ("flip>", r"(?<=if )(%s) > (%s)(?= \{)" % (ID, NUMFN), r"\2 < \1"),
    ("flip==", r"(?<=if )(%s) == (%s)(?= \{)" % (ID, NUMFN), r"!(\2 != \1)"),
    ("fn-sqrt", r"T::(sqrt|sin|cos|abs|acos)\((%s)\)" % ID, r"(\2).\1()"),
    ("fn-sqrt2", r"(?<!\w)(%s)\.(sqrt|sin|cos)\(\)" % r"[a-z]\w*", r"T::\2(\1)"),
    ("zero", r"T::zero\(\)(?!\))", r"(T::one() - T::one())"),
    ("let", r"(?m)^(\s*)let (\w+) = ([^;\n{}]+);$", r"\1let pre_\2 = \3;\n\1let \2 = pre_\2;"),
    ("loop", r"for (\w+) in 0\.\.(\w+|\w+\.\w+\(\)) \{", r"for \1 in (0..\2).collect::<Vec<_>>() {"),
    ("loop2", r"for (\w+) in 0\.\.(\w+) \{", r"for \1 in (0..\2).map(|q| q + 0) {"),
    ("neg", r"(?<=[(,] )-(self\[[^\[\]]*\])(?=[,)])", r"T::zero() - \1"),
    ("recip", r"(?:one|T::one\(\)) / (%s)(?=[;),])" % r"[a-z]\w*", r"(\1).recip()"),
    ("bool", r"(?<=if )(\w+) && (\w+)(?= \{)", r"\2 && \1"),
    ("block", r"(?m)^(\s*)(Self::new_from\([^;{}]*?\)|Self::new\([^;{}]*?\))\n(\s*\})", r"\1let result_ = \2;\n\1result_\n\3"),
    ("paren", r"(%s) / (%s)(?=[;),])" % (SC, SC), r"((\1) / (\2))"),
    ("twice", r"(?<![\w.])two(?= \*)", r"(one + one)"),
    ("sq", r"(?<![/%%] )(?<!\w|\.)([a-z]\w*) \* \1(?![\w.\[(])", r"\1.powi(2)"),
]
def gen(seed, out):
    rnd = random.Random(seed)
    d = W + "/gen"
    os.makedirs(out, exist_ok=True)
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(d):
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target"))
    env = dict(M.ENV, CARGO_TARGET_DIR=W + "/gen-target")
    ok = lambda c: subprocess.run(["cargo"] + c, cwd=d, env=env, capture_output=True).returncode == 0
    for f in sorted(os.listdir("/repo/src")):
        if f in ("lib.rs", "errors.rs", "traits.rs") or not f.endswith(".rs"):
            continue
        full = open("/repo/src/" + f).read()
        i = full.find("#[cfg(test)]")
        t, tail = (full[:i], full[i:]) if i > 0 else (full, "")
        ss = []
        for n, p, r in RULES:
            m0 = [(m.start(), m.end(), m.expand(r), n) for m in re.finditer(p, t) if "//" not in t[t.rfind("\n", 0, m.start()) + 1 : m.start()]]
            rnd.shuffle(m0)
            ss += m0[:12]
        rnd.shuffle(ss)
        def build(sel):
            s, last = [], len(t)
            o = t
            for a, b, r, _ in sorted(sel, key=lambda x: -x[0]):
                o = o[:a] + r + o[b:]
            return o + tail
        sel = []
        def compiles(c):
            open(d + "/src/" + f, "w").write(build(c))
            return ok(["check", "--offline"])
        def add(c):
            nonlocal sel
            c = [x for x in c if not any(x[0] < y[1] and y[0] < x[1] for y in sel)]
            cc = []
            for x in c:
                if not any(x[0] < y[1] and y[0] < x[1] for y in cc):
                    cc.append(x)
            if not cc:
                return
            if compiles(sel + cc):
                sel = sel + cc
            elif len(cc) > 1:
                add(cc[: len(cc) // 2])
                add(cc[len(cc) // 2 :])
        for k in range(0, len(ss), 8):
            add(ss[k : k + 8])
        open(d + "/src/" + f, "w").write(build(sel))
        good = ok(["test", "--offline", "--lib"])
        from collections import Counter
        print(f, len(ss), len(sel), "tests", good, dict(Counter(x[3] for x in sel)), flush=True)
        if good and sel:
            open(out + "/" + f, "w").write(build(sel))
        open(d + "/src/" + f, "w").write(full)
def run(out, workers, ids):
    import queue, threading
    q = queue.Queue()
    fs = [f for f in sorted(os.listdir(out)) if f.endswith(".rs")]
    for f in fs:
        q.put(f)
    def worker(k):
        d = "%s/%d" % (W, k)
        os.makedirs(d, exist_ok=True)
        for n in ("repo", "verif"):
            if os.path.exists(d + "/" + n):
                shutil.rmtree(d + "/" + n)
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target"))
        shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns("seeded", ".git"))
        while True:
            try:
                f = q.get_nowait()
            except queue.Empty:
                return
            shutil.copy(out + "/" + f, d + "/repo/src/" + f)
            bad = []
            for c in ids:
                try:
                    r = subprocess.run(["./check", c, "quick"], cwd=d + "/verif", env=dict(M.ENV, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
                    if r.returncode:
                        bad.append("%s rc=%d %s %s" % (c, r.returncode, [l[:200] for l in r.stdout.splitlines() if l.startswith("VIOL") or " -- " in l], r.stderr[-300:] if r.returncode > 1 else ""))
                except subprocess.TimeoutExpired:
                    bad.append(c + " timeout")
            print(f, "quiet" if not bad else bad, flush=True)
            shutil.copy("/repo/src/" + f, d + "/repo/src/" + f)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
    [x.start() for x in ts]
    [x.join() for x in ts]
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(int(a[2]), a[3])
    else:
        run(a[2], int(a[3]), a[4:] or M.ALL)
