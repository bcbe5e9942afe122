#!/usr/bin/env python3
"""Behaviour-preserving edits: every check has to stay quiet on them.
usage: refactor.py [-p C01,C02] [id...]"""
import glob, os, time, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = []
def ref(id, *edits, whole=None):
    REF.append((id, edits, whole))
for f in sorted(glob.glob(os.path.join(root, "meta", "refactors", "*.py"))):
    exec(open(f).read())
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout
args = sys.argv[1:]
props = sorted(set(re.findall(r'register\("(C\d\d)"', "".join(open(g).read() for g in glob.glob(root + "/gmcheck/*.go")))))
if args and args[0] == "-p":
    props = args[1].split(","); args = args[2:]
def one(r):
    id, edits, whole = r
    work = tempfile.mkdtemp(prefix="refw")
    try:
        sh(["cp", "-a", "/repo/.", work])
        for f, old, new in edits:
            p = os.path.join(work, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return "%-28s BROKEN: edit of %s matches %d times: %r" % (id, f, n, old[:60])
            open(p, "w").write(t.replace(old, new))
        rc, o = sh("goimports -w pkg/dag pkg/storage pkg/common; gofmt -w pkg internal; mkdir /tmp/mf.$$; cp go.mod go.sum /tmp/mf.$$/; printf '\\nreplace github.com/amarin/logging => /verif/stubs/logging\\nreplace github.com/amarin/libxml => /verif/stubs/libxml\\n' >> /tmp/mf.$$/go.mod; "
                   "go test -modfile /tmp/mf.$$/go.mod -count=1 ./pkg/dag ./pkg/storage ./internal/index; rc=$?; rm -r /tmp/mf.$$; exit $rc", work)
        if rc:
            return "%-28s BROKEN: %s" % (id, o[-1500:])
        res = []
        vs = work + "/.vscr"
        os.makedirs(vs + "/evidence")
        os.symlink(root + "/stubs", vs + "/stubs")
        shutil.copy(root + "/known_findings.txt", vs)
        t0 = time.time()
        for p in (props if len(props) < 4 else ["all"]):
            rc, o = sh(["timeout", "600", os.environ.get("GMCHECK", "/tmp/gmcheck"), "-prop", p, "-repo", work, "-verif", vs])
            if rc not in (0, 1): res.append("   " + p + " EXIT %d" % rc)
            if rc:
                res += ["      " + l[:int(os.environ.get("W", "260"))] for l in o.split("\n") if l and not l.startswith("OK ")]
        if not res: return "%-22s quiet %.0fs" % (id, time.time() - t0)
        return "%-28s %s" % (id, "quiet" if not res else "\n" + "\n".join(res))
    finally:
        shutil.rmtree(work)
todo = [r for r in REF if not args or r[0] in args]
with ThreadPoolExecutor(int(os.environ.get("N", "7"))) as ex:
    for l in ex.map(one, todo):
        print(l); sys.stdout.flush()
