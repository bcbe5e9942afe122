#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from meta/seeds/*.py and tries each bug in a scratch copy of /repo:
it has to build, pass the existing tests, break its demo; the checks run against it are reported.
usage: seed.py [-n] [-a] [id...]   (-n: no checks, -a: run all the checks, not only the property's)"""
import glob, json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, needs, breaks, edits, pkg, test, imports=(), multi=()):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, imports=imports))
for f in sorted(glob.glob(os.path.join(root, "meta", "seeds", "*.py"))):
    exec(open(f).read())

STUBBED = ("internal/index", "pkg/opencorpora", "cmd/opencorpora_test", "cmd/opencorpora_update")
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/ov.json"
%(mod)sgo test%(modflag)s -overlay "$t/ov.json" -vet=off -count=1 -run '^TestSeededDemo$' ./%(pkg)s
rc=$?
rm -r "$t"
exit $rc
'''
MOD = '''cp go.mod "$t/go.mod"; cp go.sum "$t/go.sum"
printf '\\nreplace github.com/amarin/logging => %s/stubs/logging\\nreplace github.com/amarin/libxml => %s/stubs/libxml\\n' "$d" "$d" >> "$t/go.mod"
'''
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")

def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout

args = sys.argv[1:]
nocheck = "-n" in args
allchecks = "-a" in args
ids = [a for a in args if not a.startswith("-")]
work = tempfile.mkdtemp(prefix="seedw")
sh(["cp", "-a", "/repo/.", work])
table = {}
for s in SEEDS:
    if ids and s["id"] not in ids:
        continue
    out = os.path.join(root, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sh(["git", "checkout", "-q", "--", "."], work)
    bad = None
    for f, old, new in s["edits"]:
        p = os.path.join(work, f)
        t = open(p).read()
        if t.count(old) != 1:
            bad = "edit of %s matches %d times" % (f, t.count(old)); break
        open(p, "w").write(t.replace(old, new))
    if bad:
        print(s["id"], "BROKEN:", bad); continue
    stubbed = s["pkg"] in STUBBED
    test = "package %s\n\nimport (\n%s\n)\n\n%s\n" % (
        os.path.basename(s["pkg"]) if not s["pkg"].startswith("cmd") else "main",
        "\n".join('\t"%s"' % i for i in ("testing",) + tuple(s["imports"])), s["test"].strip())
    open(os.path.join(out, "demo_test.go"), "w").write(test)
    if stubbed:
        shutil.copytree(os.path.join(root, "stubs"), os.path.join(out, "stubs"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(DEMO % dict(pkg=s["pkg"], mod=MOD if stubbed else "", modflag=' -modfile "$t/go.mod"' if stubbed else ""))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    rc, diff = sh(["git", "diff"], work)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    msgs = []
    removed = [l for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    rc, rev = sh("git rev-list --max-parents=0 HEAD", work)
    base = [sh(["git", "show", rev.strip() + ":" + e[0]], work)[1].split("\n") for e in s["edits"]]
    if not any(l[1:] in b for l in removed for b in base): msgs.append("changes no line of the original repository")
    rc, o = sh("go build ./pkg/dag ./pkg/storage ./pkg/common ./internal/grammemes && gofmt -l internal pkg cmd && go test -vet=off -count=1 ./pkg/dag ./pkg/storage", work)
    if rc: msgs.append("existing tests/build fail:\n" + o)
    rc, o1 = sh([os.path.join(out, "demo.sh")], work)
    if rc == 0: msgs.append("demo passes with the bug")
    elif "FAIL" not in o1 or "build failed" in o1: msgs.append("demo output: " + o1)
    checks = ["C??"]
    res = []
    if not nocheck:
        import re
        todo = [s["prop"]]
        if allchecks:
            rc, o = sh([os.environ.get("GMCHECK", os.environ.get("GMCHECK", "/tmp/gmcheck")), "-prop", "all", "-repo", work, "-verif", "/tmp/vs"])
            res, todo = sorted(set(re.findall(r"VIOLATION property=(C\d\d)", o))), []
        for p in todo:
            rc, o = sh([os.environ.get("GMCHECK", os.environ.get("GMCHECK", "/tmp/gmcheck")), "-prop", p, "-repo", work, "-verif", "/tmp/vs"])
            if rc: res.append(p)
    sh(["git", "checkout", "-q", "--", "."], work)
    rc, o = sh([os.path.join(out, "demo.sh")], work)
    if rc: msgs.append("demo fails on the unchanged tree:\n" + o)
    caught = "" if nocheck else ("caught" if s["prop"] in res else "MISSED") + ((" by " + ",".join(res)) if res else "")
    print(s["id"], s["prop"], "ok" if not msgs else "BROKEN", caught)
    for m in msgs: print("   ", m[:1500])
    sys.stdout.flush()
shutil.rmtree(work)
