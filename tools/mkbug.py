"""mk(...) plants a bug in a scratch copy of /repo, confirms it, and keeps it in /verif/seeded."""
import json, os, shutil, subprocess, sys, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "902c88a"
DEMO = '''#!/bin/bash
# exit 0 when the property holds
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(dir)szz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s %(flags)s -run '^TestDemo$' ./%(dir)s
'''


def sh(cmd, cwd, timeout=400):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def original(repo, f):
    out = sh(f"git blame -s --line-porcelain HEAD -- {f} | grep -E '^[0-9a-f]{{40}} '", repo).stdout.split("\n")
    rev = {}
    ok = set()
    anc = set(sh(f"git rev-list {BASE}", repo).stdout.split())
    for l in out:
        p = l.split()
        if len(p) >= 3 and p[0] in anc:
            ok.add(int(p[2]))
    return ok


def mk(id, prop, edits, demo, needs, breaks, dir="", flags=""):
    w = "/tmp/bugs/" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    sh("git checkout -q -- .", w)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "edit matches", s.count(old), "times in", f, repr(old)); return False
            open(p, "w").write(s.replace(old, new))
        if sh("gofmt -l " + " ".join(e[0] for e in edits), w).stdout.strip():
            sh("gofmt -w " + " ".join(e[0] for e in edits), w)
        diff = sh("git diff", w).stdout
        # removed lines are original ones
        cur, removed, bad = None, 0, 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = original(w, l[6:])
            elif m := re.match(r"@@ -(\d+)", l):
                n = int(m.group(1))
            elif l.startswith("-"):
                removed += 1
                if n not in cur:
                    bad += 1
                n += 1
            elif l.startswith(" "):
                n += 1
        if removed == 0 or bad:
            print(id, "removed lines:", removed, "not original:", bad); return False
        d = os.path.join(ROOT, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(demo.lstrip("\n"))
        sh(". /opt/vp/env.sh 2>/dev/null; goimports -w demo_test.go", d)
        open(d + "/demo.sh", "w").write(DEMO % {"dir": dir + "/" if dir else "", "flags": flags})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        env = ". /opt/vp/env.sh 2>/dev/null; "
        r = sh(env + "go build ./... && go test -json -vet=off -count=1 -timeout 90s ./... >/tmp/bugs/log.json; python3 /opt/vp/results.py /tmp/bugs/res.json gojson:/tmp/bugs/log.json; tail -3 /tmp/bugs/log.json", w)
        res = json.load(open("/tmp/bugs/res.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(res.get("passed") or res.get("pass") or [])
        need = set(base.get("passed") or base.get("stable") or base.get("tests") or [])
        if not need or need - passed:
            print(id, "TESTS:", sorted(need - passed)[:5], r.stdout[-300:]); shutil.rmtree(d); return False
        r = sh(d + "/demo.sh", w)
        if r.returncode == 0:
            print(id, "DEMO PASSES WITH THE BUG", r.stdout[-500:]); shutil.rmtree(d); return False
        first = r.stdout[-600:]
        if "build failed" in first or "panic: test timed out" in first and "timeout" not in needs:
            print(id, "demo:", first)
            if "build failed" in first:
                shutil.rmtree(d); return False
        sh("git checkout -q -- .", w)
        for k in range(2):
            r = sh(d + "/demo.sh", w)
            if r.returncode != 0:
                print(id, "DEMO FAILS ON THE GOOD TREE", r.stdout[-1500:]); shutil.rmtree(d); return False
        print(id, "ok |", " ".join(first.split())[:160])
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
