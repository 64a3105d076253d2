"""Makes /verif/seeded/<id>/ from tools/seed_list.py and confirms each one:
python3 seed.py [-k substr] [-n]   (-n: only write the files, do not confirm)
Confirming applies the patch to /repo for a moment and undoes it."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_list import SEEDS
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_seeded_test.go": "$here/zz_seeded_test.go"}}
EOF
go test -overlay "$tmp/overlay.json"%(race)s -vet=off -count=1 -timeout %(timeout)ss -run '^TestSeeded' ./%(pkg)s
'''
def sh(c, **k): return subprocess.run(["bash", "-c", c], capture_output=True, text=True, **k)

def write(s):
    d = f"{OUT}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        sh(f"cd /repo && git archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x")
        for f, old, new in s["edits"]:
            p = f"{t}/go/{f}"; x = open(p).read()
            assert x.count(old) == 1, (s["id"], f, x.count(old), old[:60])
            open(p, "w").write(x.replace(old, new))
        sh(f"cd {t} && gofmt -l go > /dev/null")
        open(d + "/patch.diff", "w").write(sh(f"cd {t} && git diff").stdout)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(s.get("demo") or DEMO % dict(pkg=s.get("pkg", "go/tricorder"), race=" -race" if s.get("race") else "", timeout=s.get("timeout", 60)))
    os.chmod(d + "/demo.sh", 0o755)
    if s.get("test"): open(d + "/zz_seeded_test.go", "w").write(s["test"].lstrip("\n"))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)

def confirm(s):
    d = f"{OUT}/{s['id']}"
    r = sh(f"cd /repo && bash {d}/demo.sh")
    base = r.returncode
    if base: print(r.stdout[-800:], r.stderr[-400:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(s["id"], "patch does not apply", a.stderr); return
    try:
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        m = sh(f"cd /repo && bash {d}/demo.sh")
        ok = base == 0 and b.returncode == 0 and t.returncode == 0 and m.returncode != 0
        c = sh(f"VERIF_GOROOT=/opt/veriftools/go1.27.3 /tmp/chk -repo /repo -verif /tmp/v -prop {s['prop']}")
        print(s["id"], "CONFIRMED" if ok else f"NOT base={base} build={b.returncode} test={t.returncode} mut={m.returncode} {b.stderr[-300:]}", "caught" if c.returncode == 1 else f"MISSED rc={c.returncode}", s["prop"])
        if not ok and m.returncode == 0: print(m.stdout[-500:])
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    a = sys.argv[1:]
    k = a[a.index("-k") + 1] if "-k" in a else ""
    for s in SEEDS:
        if k in s["id"]:
            write(s)
            if "-n" not in a: confirm(s)
