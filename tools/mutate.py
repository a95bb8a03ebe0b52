#!/usr/bin/env python3
"""Runs the checks against edited copies of the repository.

mutants.py lists edits that break a property (the named checks must report it) and
refactorings that keep all behaviour (every check must stay quiet).
usage: mutate.py [-j N] [bug|ref] [name-substring...]      scratch copies live in /tmp/mutate
"""
import concurrent.futures as cf, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants
AN = os.environ.get("ANALYZER", "/verif/bin/analyzer")
ROOT = "/tmp/mutate"
ALL = os.environ.get("ALLCHECKS", "").split() or mutants.all_checks()

def prep(name, edits):
    d = f"{ROOT}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    for f, a, b in edits:
        p = f"{d}/repo/{f}"
        s = open(p).read() if os.path.exists(p) else ""
        if a == "":
            s = s + b
        else:
            if a not in s:
                return d, f"pattern not in {f}: {a[:60]!r}"
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
    r = subprocess.run(["go", "build", "./..."], cwd=d + "/repo", capture_output=True, text=True, errors="replace")
    if r.returncode == 0:
        r = subprocess.run(["go", "vet", "./..."], cwd=d + "/repo", capture_output=True, text=True, errors="replace")
    return d, (r.stdout + r.stderr)[:600] if r.returncode else ""

def check(d, cid):
    t = time.time()
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_DIR=d)
    os.makedirs(d + "/evidence", exist_ok=True)
    r = subprocess.run([AN, "check", cid], env=env, capture_output=True, text=True, errors="replace")
    return r.returncode, r.stdout, time.time() - t

def one(kind, name, edits, ids):
    d, err = prep(name, edits)
    out = []
    ok = True
    if err:
        shutil.rmtree(d, ignore_errors=True)
        return False, f"{name}: BUILD {err}"
    for cid in (ids if kind == "bug" else ALL):
        rc, so, t = check(d, cid)
        und = [l for l in so.splitlines() if l.startswith("property ")]
        und = und[0].split("; ")[1].split(", ")[-1] if und else so[-200:]
        if kind == "bug":
            if rc != 1:
                ok = False
                out.append(f"{cid} MISSED rc={rc} ({und})")
            else:
                out.append(f"{cid} caught: " + next((l.strip() for l in so.splitlines() if "refuted:" in l), "")[:160])
        else:
            if rc != 0:
                ok = False
                out.append(f"{cid} ALARM rc={rc}: " + next((l.strip() for l in so.splitlines() if "refuted:" in l), so[-300:])[:300])
            elif not und.startswith("0 "):
                out.append(f"{cid} {und}")
            if t > 200:
                out.append(f"{cid} slow {t:.0f}s")
    shutil.rmtree(d, ignore_errors=True)
    return ok, f"{'ok ' if ok else 'BAD'} {name}: " + "\n      ".join(out)

def main():
    a = sys.argv[1:]
    j = 6
    if a[:1] == ["-j"]:
        j = int(a[1]); a = a[2:]
    kinds = ["bug", "ref"]
    if a and a[0] in kinds:
        kinds = [a[0]]; a = a[1:]
    jobs = []
    for n, e, i in mutants.BUGS:
        if "bug" in kinds and (not a or any(x in n for x in a)):
            jobs.append(("bug", n, e, i))
    for n, e in mutants.REFS:
        if "ref" in kinds and (not a or any(x in n for x in a)):
            jobs.append(("ref", n, e, None))
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one, *x) for x in jobs]):
            ok, msg = f.result()
            bad += not ok
            print(msg, flush=True)
    print(f"{len(jobs)} edits, {bad} not as expected")
if __name__ == "__main__":
    main()
