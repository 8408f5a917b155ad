#!/usr/bin/env python3
"""Makes and confirms planted bugs in a scratch copy of /repo.
usage: plant.py FILE.py [ID...]   FILE defines BUGS: a list of dicts
  id, property, needs, breaks, file, old, new, pkg, demo (Go test source with TestDemo)
"""
import json, os, shutil, subprocess, sys, tempfile
seeded = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the tree in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="plant")
    try:
        sh("git -C /repo worktree prune; git -C /repo archive HEAD | tar -x -C %s; cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % (w, w), "/")
        d = os.path.join(seeded, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo_test.go", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % b)
        os.chmod(d + "/demo.sh", 0o755)
        r0, o0 = sh(d + "/demo.sh", w)
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        for f, old, new in edits:
            s = open(os.path.join(w, f)).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(os.path.join(w, f), "w").write(s.replace(old, new))
        r1, o1 = sh(d + "/demo.sh", w)
        _, diff = sh("git diff", w)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rb, ob = sh(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./...", w)
        ok = r0 == 0 and r1 != 0 and rb == 0
        print(b["id"], "OK" if ok else "BAD", "clean=%d patched=%d tests=%d" % (r0, r1, rb))
        if not ok:
            print(o0[-1500:], "\n---\n", o1[-1500:], "\n---\n", ob[-1500:])
    finally:
        shutil.rmtree(w)
