#!/usr/bin/env python3
"""Mutation survey: one-edit mutants of the given files that build and pass the
existing tests, and which checks report them.
usage: mutate.py OUT file..."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
out, files = sys.argv[1], sys.argv[2:]
def sh(cmd, cwd=None, t=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
rc, o = sh(["sh", "-c", "cd %s/meta/mutate && go build -o /tmp/mutate . && exec /tmp/mutate \"$@\"" % root, "sh"] + ["/repo/" + f for f in files])
muts = [json.loads(l) for l in o.split("\n") if l]
if os.environ.get("SKIP"):
    import re
    muts = [m for m in muts if not re.search(os.environ["SKIP"], m["What"] + " " + os.path.basename(m["File"]) + ":" + str(m["Line"]))]
N = int(os.environ.get("N", "7"))
dirs = []
import queue
pool = queue.Queue()
for i in range(N):
    w = tempfile.mkdtemp(prefix="mutw")
    sh(["cp", "-a", "/repo/.", w])
    sh("mkdir -p .mf; cp go.mod go.sum .mf/; printf '\\nreplace github.com/amarin/logging => /verif/stubs/logging\\nreplace github.com/amarin/libxml => /verif/stubs/libxml\\n' >> .mf/go.mod", w)
    vs = w + "/.vscr"; os.makedirs(vs + "/evidence"); os.symlink(root + "/stubs", vs + "/stubs"); shutil.copy(root + "/known_findings.txt", vs)
    dirs.append(w); pool.put(w)
def one(m):
    w = pool.get()
    rel = os.path.relpath(m["File"], "/repo")
    p = w + "/" + rel
    src = open(p, "rb").read()
    try:
        open(p, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
        rc, o = sh("go build -modfile .mf/go.mod ./pkg/storage ./pkg/dag ./pkg/common ./internal/index ./pkg/opencorpora ./cmd/opencorpora_update", w)
        if rc: return None
        rc, o = sh("timeout 60 go test -modfile .mf/go.mod -count=1 ./pkg/storage ./pkg/dag ./pkg/common ./internal/index", w)
        if rc: return ("tests", m, "")
        rc, o = sh(["timeout", "300", "/tmp/gmcheck", "-prop", os.environ.get("PROPS", "all"), "-repo", w, "-verif", w + "/.vscr"])
        hits = [l.split("property=")[1].split()[0] for l in o.split("\n") if l.startswith("VIOLATION")]
        if rc not in (0, 1): hits.append("EXIT%d" % rc)
        return ("caught" if hits else "MISSED", m, " ".join(hits))
    finally:
        open(p, "wb").write(src); pool.put(w)
cnt = {}
with open(out, "w") as f, ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, muts):
        k = r[0] if r else "nobuild"
        cnt[k] = cnt.get(k, 0) + 1
        if r and k != "tests":
            m = r[1]
            f.write("%s %s:%d %s -> %r   %s\n" % (k, os.path.relpath(m["File"], "/repo"), m["Line"], m["What"].replace("\n", " ")[:140], m["New"][:60], r[2])); f.flush()
    f.write(str(cnt) + "\n")
for w in dirs: shutil.rmtree(w)
