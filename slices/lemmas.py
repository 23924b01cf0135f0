#!/usr/bin/env python3
"""lemmas.py FILE [EVIDENCE]: has Lean check lemmas/FILE.lean (mathematics behind the contracts; nothing of
/repo is in it) and says so in the evidence.  Never an alarm."""
import json, os, re, shutil, subprocess, sys, time
DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas")
ALLOWED = {"propext", "Classical.choice", "Quot.sound"}

def check(name):
    """the theorems listed at the end of the file, each with no axioms but Lean's own"""
    t0 = time.time()
    path = os.path.join(DIR, name + ".lean")
    want = re.findall(r"^#print axioms (\w+)", open(path).read(), re.M)
    out = {"file": "lemmas/%s.lean" % name, "by": "lean (Mathlib)", "theorems": want, "proved": False}
    try:
        r = subprocess.run(["lean", path], capture_output=True, text=True, timeout=400)
        got = {m.group(1): set(re.findall(r"[\w.]+", m.group(2) or "")) for m in re.finditer(r"'(\w+)' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", r.stdout)}
        out["proved"] = r.returncode == 0 and bool(want) and all(t in got and got[t] <= ALLOWED for t in want)
        if not out["proved"]:
            e = [l for l in (r.stdout + r.stderr).splitlines() if "error" in l]
            out["why_not"] = (e or ["axioms: %s" % {t: sorted(a) for t, a in got.items()}])[0][:300]
    except Exception as e:
        out["why_not"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    out["ms"] = int(1000 * (time.time() - t0))
    return out

def say(r):
    print("%s: %s" % (r["file"], "%d theorems checked" % len(r["theorems"]) if r["proved"] else "not checked (%s)" % r["why_not"]))

if __name__ == "__main__":
    r = check(sys.argv[1])
    say(r)
    if len(sys.argv) > 2 and os.path.exists(sys.argv[2]):
        d = json.load(open(sys.argv[2]))
        d["coverage"]["lemmas"] = [r]
        if not r["proved"]:
            d["assumptions"].append("the parametrisations in %s (not rechecked in this run)" % r["file"])
        json.dump(d, open(sys.argv[2], "w"), indent=1)
