"""Development aid (no check reads it): applies small edits to scratch copies of
/repo and shows what the checks say.  python3 mutants.py [-k substr] [-t] [-p PROP]
Each entry: id, properties that must report it ('' = must stay quiet on PROPS), edits.
"""
import os, shutil, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutant_list import M, QUIET

CHK = os.environ.get("CHK", "/tmp/chk")
def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def one(mid, props, edits, tests):
    d = "/tmp/mut/" + mid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(d, "go", f)
            s = open(p).read()
            if s.count(old) != 1:
                return [f"{mid}: EDIT matches {s.count(old)} times in {f}: {old[:50]!r}"]
            open(p, "w").write(s.replace(old, new))
        if tests:
            gp = "/tmp/mut/gp-" + mid
            os.makedirs(gp + "/src/github.com/Symantec", exist_ok=True)
            os.symlink(d, gp + "/src/github.com/Symantec/tricorder")
            r = run(["bash", "-c", ". /opt/vp/env.sh; export GOPATH=%s; cd %s/src/github.com/Symantec/tricorder && go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files' | head -20" % (gp, gp)])
            shutil.rmtree(gp)
            out.append(f"{mid}: tests {'PASS' if not r.stdout.strip() and not r.stderr.strip() else (r.stdout+r.stderr)[:600]}")
        env = dict(os.environ, VERIF_GOROOT="/opt/veriftools/go1.27.3")
        if props == ["ALL"]:
            r = run([CHK, "-repo", d, "-verif", "/tmp/mut/v-" + mid, "-all"], env=env)
            bad = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith("OK ")]
            out.append(f"{'ok  ' if r.returncode == 0 else 'BAD '}{mid} ALL rc={r.returncode}")
            if r.returncode:
                out += ["      " + l[:400] for l in bad[:30]] + ["      " + l for l in r.stderr.splitlines()[:6]]
            props = []
        for q in props:
            r = run([CHK, "-repo", d, "-verif", "/tmp/mut/v-" + mid, "-prop", q], env=env)
            v = [l for l in r.stdout.splitlines() if l.strip()]
            want = mid not in QUIET
            good = (r.returncode == 1) == want and r.returncode in (0, 1)
            tag = "ok  " if good else "BAD "
            out.append(f"{tag}{mid} {q} rc={r.returncode}")
            if not good or os.environ.get("V"):
                out += ["      " + l[:400] for l in v[:6]] + ["      " + l for l in r.stderr.splitlines()[:6]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/mut/v-" + mid, ignore_errors=True)
    return out

if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "-t" in a
    k = a[a.index("-k") + 1] if "-k" in a else ""
    p = a[a.index("-p") + 1].split(",") if "-p" in a else None
    jobs = []
    for mid, props, edits in M:
        if k and k not in mid:
            continue
        q = [x for x in props.split() if not p or x in p]
        if q:
            jobs.append((mid, q, edits, tests))
    with cf.ThreadPoolExecutor(3) as ex:
        for o in ex.map(lambda j: one(*j), jobs):
            print("\n".join(o), flush=True)
