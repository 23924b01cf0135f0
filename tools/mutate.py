#!/usr/bin/env python3
"""mutate.py gen|traps N SEED OUT | mutate.py tests OUT WORKERS | mutate.py checks OUT WORKERS
Random one-token changes of /repo/src; keeps those that build and pass the crate's tests, and shows which
checks notice them.  Works in copies under /tmp/mut, never in /repo."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
W = "/tmp/mut"
SUBS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=[\[(,\s])\d(?=[\],);\s])", ["D"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<=[(,=]\s)-(?=[\w(])", [""]), (r"(?<=[(\[])-(?=[\w(])", [""]), (r"T::zero\(\)", ["T::one()"]), (r"T::one\(\)", ["T::zero()"]),
    (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\btwo\b", ["one"]), (r"\bone\b", ["two"]),
    (r"\bself\b", ["rhs"]), (r"\brhs\b", ["self"]), (r"\.abs\(\)", [""]), (r"\.conj\(\)", [""]), (r"\.transpose\(\)", [""]),
    (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]), (r"\bSome\((\w+)\)", ["None"]), (r"T::epsilon\(\)", ["T::epsilon().sqrt()", "T::zero()"]),
    (r"if (?=[^{]*\{)", ["if !"]), (r"\.skip\(1\)", [".skip(2)", ""]), (r"\breal\b", ["dual"]), (r"\bdual\b", ["real"]),
    (r"return ", [""]), (r"1e-\d+", ["1e-2", "1e-12"]),
]
def sites(f):
    t = open("/repo/src/" + f).read()
    i = t.find("#[cfg(test)]")
    out, pos, comment = [], 0, False
    for line in t[: i if i > 0 else len(t)].splitlines(True):
        c = line.split("//")[0]
        if not c.strip().startswith("#") and not c.strip().startswith("use ") and not c.strip().startswith("impl") and not c.strip().startswith("pub fn"):
            for p, rs in SUBS:
                for m in re.finditer(p, c):
                    for r in rs:
                        if r == "D":
                            d = int(m.group(0))
                            for r2 in {str(d + 1), str(max(0, d - 1))} - {m.group(0)}:
                                out.append((pos + m.start(), pos + m.end(), r2))
                        else:
                            out.append((pos + m.start(), pos + m.end(), r))
        pos += len(line)
    return t, out
def gen(n, seed, out):
    rnd = random.Random(seed)
    fs = [f for f in sorted(os.listdir("/repo/src")) if f.endswith(".rs") and f not in ("lib.rs", "errors.rs", "traits.rs")]
    res = []
    for f in fs:
        t, s = sites(f)
        rnd.shuffle(s)
        for a, b, r in s[: max(4, n * (3 if f in ("quaternion.rs", "dual_quaternion.rs", "transformations.rs") else 1) // (len(fs) + 6))]:
            res.append(dict(file=f, a=a, b=b, old=t[a:b], new=r, line=t.count("\n", 0, a) + 1, text=t.splitlines()[t.count("\n", 0, a)].strip()[:140]))
    rnd.shuffle(res)
    json.dump(res, open(out, "w"), indent=1)
    print(len(res))
def traps(n, seed, out):
    """the same changes, but only when a rare condition on the values at hand holds"""
    rnd = random.Random(seed)
    fs = [f for f in sorted(os.listdir("/repo/src")) if f.endswith(".rs") and f not in ("lib.rs", "errors.rs", "traits.rs")]
    res = []
    T = lambda x: "T::from(%s).unwrap()" % x
    for f in fs:
        t, s = sites(f)
        s = [x for x in s if t[x[0]:x[1]].strip() in ("+", "-", "*", "/", "sin", "cos", ".conj()", ".transpose()", ".abs()") or re.fullmatch(r"\d", t[x[0]:x[1]])]
        rnd.shuffle(s)
        k, want = 0, max(6, n * (3 if f in ("quaternion.rs", "dual_quaternion.rs", "transformations.rs") else 1) // (len(fs) + 6))
        for a, b, r in s:
            if k >= want:
                break
            lo = a
            d = 0
            while lo > 0 and not (d == 0 and t[lo - 1] in "([{,=;"):
                lo -= 1
                d += (t[lo] in ")]") - (t[lo] in "([")
            hi, d = b, 0
            while hi < len(t) and not (d == 0 and t[hi] in ")],;{}"):
                d += (t[hi] in "([") - (t[hi] in ")]")
                hi += 1
            e = t[lo:hi]
            if "\n" in e or "//" in e or len(e) < 3 or t[lo - 1] == "[" or e.lstrip().startswith("&"):
                continue
            sc = [m.group(0) for m in re.finditer(r"(?<![\w.\]:])(?!let\b|if\b|return\b|one\b|two\b|half\b)[a-z_]\w*(?:\.q0|\.q\[\d\])?(?:\[[^\[\]]*\])?(?![\w(:!\[.]| \{)", e)]
            if not sc:
                continue
            x, y = rnd.choice(sc), rnd.choice(sc)
            c = [x + " == T::one()", x + " == T::zero()", "%s == %s" % (x, T(2)), "%s > %s" % (x, T(1000)), "%s < -%s" % (x, T(40)),
                 "%s.abs() < %s && %s != T::zero()" % (x, T("1e-4"), x), "%s == T::one() + T::one()" % x, "%s == T::zero() - T::one()" % x]
            if x != y:
                c += ["%s == %s" % (x, y), "%s + %s == T::zero()" % (x, y), "%s == %s * %s" % (x, y, T(2)), "%s == T::one() && %s == T::zero()" % (x, y),
                      "%s > %s && %s > %s" % (x, T(3), y, T(3))] * 2
            new = "(if %s { %s } else { %s })" % (rnd.choice(c), (e[: a - lo] + r + e[b - lo :]).strip(), e.strip())
            ld = e[: len(e) - len(e.lstrip())]
            res.append(dict(file=f, a=lo, b=hi, old=e, new=ld + new, line=t.count("\n", 0, a) + 1, text=t.splitlines()[t.count("\n", 0, a)].strip()[:140]))
            k += 1
    rnd.shuffle(res)
    json.dump(res, open(out, "w"), indent=1)
    print(len(res))
def work(out, workers, setup, job, save_every=5):
    ms = json.load(open(out))
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock, cnt = threading.Lock(), [0]
    def run(k):
        d = "%s/%d" % (W, k)
        setup(d)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            t = open("/repo/src/" + m["file"]).read()
            assert t[m["a"] : m["b"]] == m["old"]
            p = d + "/repo/src/" + m["file"]
            open(p, "w").write(t[: m["a"]] + m["new"] + t[m["b"] :])
            try:
                job(d, m)
            finally:
                open(p, "w").write(t)
            with lock:
                cnt[0] += 1
                if cnt[0] % save_every == 0:
                    json.dump(ms, open(out, "w"), indent=1)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(ms, open(out, "w"), indent=1)
    return ms
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
def tests(out, workers):
    def setup(d):
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(d + "/repo"):
            shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target"))
        subprocess.run(["cargo", "test", "--offline", "--lib", "--no-run"], cwd=d + "/repo", env=dict(ENV, CARGO_TARGET_DIR=d + "/target"), capture_output=True)
    def job(d, m):
        if "tests" in m:
            return
        try:
            r = subprocess.run(["cargo", "test", "--offline", "--lib"], cwd=d + "/repo", env=dict(ENV, CARGO_TARGET_DIR=d + "/target"), capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            m["tests"] = "timeout"
            return
        m["tests"] = "pass" if r.returncode == 0 else ("fail" if "test result" in r.stdout else "nobuild")
    ms = work(out, workers, setup, job)
    print({k: sum(m.get("tests") == k for m in ms) for k in ("pass", "fail", "nobuild", "timeout")})
ALL = ["C%02d" % i for i in range(1, 33)]
FIRST = {
    "matrix": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"], "vector": ["C09", "C10", "C03"],
    "quaternion": ["C12", "C13", "C14", "C15", "C16", "C17"], "dual_quaternion": ["C24", "C25", "C26", "C27"],
    "transformations": ["C18", "C19", "C20", "C21", "C22", "C23", "C30"], "slices_methods": ["C11", "C28"], "utils": ["C28", "C30"],
}
def checks(out, workers):
    ms = json.load(open(out))
    live = [m for m in ms if m.get("tests") == "pass" and "caught" not in m]
    json.dump(live, open(out + ".live", "w"), indent=1)
    def setup(d):
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(d + "/repo"):
            shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target"))
        if not os.path.exists(d + "/verif"):
            shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns("seeded", ".git"))
    def job(d, m):
        if "caught" in m:
            return
        key = re.sub(r"\d.*|\.rs", "", m["file"])
        o = FIRST.get(key, [])
        slow = ["C07", "C28", "C32"]
        rest = [c for c in ALL if c not in o and c not in slow] + [c for c in slow if c not in o]
        m["caught"], m["nofail"], m["err"] = "", [], []
        for c in o + rest:
            try:
                r = subprocess.run(["./check", c, "quick"], cwd=d + "/verif", env=dict(ENV, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                m["err"].append(c + " timeout")
                continue
            if r.returncode == 1:
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if v and v[-1].endswith("no-failing-input-found"):
                    m["nofail"].append(c)
                    continue
                m["caught"] = c
                break
            if r.returncode != 0:
                m["err"].append("%s rc=%d %s" % (c, r.returncode, r.stderr[-200:]))
                break
        print(m["caught"] or "----", m["nofail"], m["err"], m["file"], m["line"], repr(m["old"]), "->", repr(m["new"]), "|", m["text"], flush=True)
    work(out + ".live", workers, setup, job, 1)
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(int(a[2]), int(a[3]), a[4])
    elif a[1] == "traps":
        traps(int(a[2]), int(a[3]), a[4])
    elif a[1] == "tests":
        tests(a[2], int(a[3]))
    else:
        checks(a[2], int(a[3]))
