#!/usr/bin/env python3
"""seed.py FILE.py...: make planted changes. Each FILE.py defines
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST (Go test source; the test is TestDemo).
Everything is confirmed in a scratch copy of /repo; with --check the property's quick check is run
with the patch applied to /repo (and undone)."""
import sys, os, json, subprocess, shutil, tempfile, runpy
DEMO = '''#!/bin/bash
# cwd: /repo. Exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test -vet=off -overlay "$t/overlay.json" -count=1 -run '^TestDemo$' ./%(pkg)s
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def repo(wt):
    if os.path.exists(wt): shutil.rmtree(wt)
    sh("cp -a /repo %s" % wt)
def demo(d, cwd):
    return sh("bash %s/demo.sh" % d, cwd=cwd)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for f in args:
        m = runpy.run_path(f)
        dst = "/verif/seeded/" + m["ID"]
        wt = tempfile.mkdtemp(prefix="seedwt-")
        repo(wt)
        ok = True
        for file, old, new in m["EDITS"]:
            p = os.path.join(wt, file); s = open(p).read()
            if s.count(old) != 1:
                print(m["ID"], "EDIT: %d matches in %s for %r" % (s.count(old), file, old[:60])); ok = False; continue
            open(p, "w").write(s.replace(old, new))
        if not ok: shutil.rmtree(wt); continue
        patch = sh("git diff", wt).stdout
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(patch)
        open(dst + "/demo.sh", "w").write(DEMO % {"pkg": m["PKG"]})
        os.chmod(dst + "/demo.sh", 0o755)
        open(dst + "/demo_test.go", "w").write(m["TEST"])
        json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(dst + "/meta.json", "w"), indent=1)
        r = sh(". /opt/vp/env.sh; gofmt -l pkg internal; go build ./... && go vet ./pkg/...", wt)
        if r.returncode: print(m["ID"], "BUILD", r.stdout)
        r = sh(". /opt/vp/env.sh; go test -count=1 ./... 2>&1 | grep -v 'no test files'", wt)
        if "FAIL" in r.stdout: print(m["ID"], "TESTS FAIL", "\n".join(l for l in r.stdout.split("\n") if "FAIL" in l)[:600]); ok = False
        a = demo(dst, "/repo"); b = demo(dst, wt)
        if a.returncode != 0: print(m["ID"], "DEMO fails on the clean tree", a.stdout[-1500:]); ok = False
        if b.returncode == 0: print(m["ID"], "DEMO passes with the patch"); ok = False
        elif "-v" in sys.argv: print(b.stdout[-800:])
        shutil.rmtree(wt)
        res = "confirmed" if ok else "NOT OK"
        if ok and "--check" in sys.argv: res += " " + check(m["ID"], m["PROP"])
        print(m["ID"], res, flush=True)
def check(id, prop, tier="quick"):
    if sh("git -C /repo status --short --untracked-files=no").stdout.strip(): return "repo dirty"
    p = "/verif/seeded/%s/patch.diff" % id
    r = sh("git -C /repo apply " + p)
    if r.returncode: return "DOES NOT APPLY " + r.stdout
    try:
        r = sh("python3 /verif/run.py %s --tier %s" % (prop, tier))
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    return "%s (exit %d, %d violations)" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, len(v))
if __name__ == "__main__":
    if sys.argv[1:2] == ["recheck"]:
        for id in sys.argv[2:] or sorted(os.listdir("/verif/seeded")):
            m = json.load(open("/verif/seeded/%s/meta.json" % id))
            print(id, m["property"], check(id, m["property"]), flush=True)
    elif sys.argv[1:2] == ["verify"]:
        # patches still apply, tests pass, demos discriminate
        for id in sys.argv[2:] or sorted(os.listdir("/verif/seeded")):
            dst = "/verif/seeded/" + id
            wt = tempfile.mkdtemp(prefix="seedwt-"); repo(wt)
            r = sh("git apply %s/patch.diff" % dst, wt); out = []
            if r.returncode: out.append("DOES NOT APPLY")
            else:
                if "FAIL" in sh(". /opt/vp/env.sh; go test -count=1 ./... 2>&1", wt).stdout: out.append("TESTS FAIL")
                if demo(dst, "/repo").returncode: out.append("demo fails clean")
                if not demo(dst, wt).returncode: out.append("demo passes with patch")
            shutil.rmtree(wt)
            print(id, out or "ok", flush=True)
    else: main()
