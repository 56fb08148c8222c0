#!/usr/bin/env python3
"""seed.py SPEC.py...: build and validate planted bugs (development tool)

A spec defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python source),
NEEDS, BREAKS.  The demo is run on the unchanged tree and on a scratch copy with
the edits; the folder /verif/seeded/<ID> is written when it passes / fails."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

OUT = "/verif/seeded"
SH = '''#!/bin/bash
# run in the tree under test, after its build
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W PYTHONPATH=$R
cd "$W" && %s
'''


def run(cwd, d):
    r = subprocess.run(["timeout", "290", "bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main():
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        d = os.path.join(OUT, s["ID"])
        w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
            subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
            r = w + "/r"
            for f, o, n in s["EDITS"]:
                p = os.path.join(r, "pylbm", f)
                t = open(p).read()
                if t.count(o) < 1:
                    print(s["ID"], "NO MATCH", f, o[:80])
                    break
                open(p, "w").write(t.replace(o, n, 1))
            else:
                patch = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(patch)
                open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
                np_ = s.get("NP", 1)
                cmd = 'timeout 280 $PY "$D/demo.py"' if np_ == 1 else \
                    'timeout 280 mpiexec --oversubscribe -n %d $PY "$D/demo.py"' % np_
                open(d + "/demo.sh", "w").write(SH % cmd)
                os.chmod(d + "/demo.sh", 0o755)
                json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]),
                          open(d + "/meta.json", "w"), indent=1)
                a, oa = run("/repo", d)
                b, ob = run(r, d)
                c = subprocess.run(["/verif/check", s["PROPERTY"]], env=dict(os.environ, PYLBM_REPO=r),
                                   capture_output=True, text=True)
                ok = a == 0 and b not in (0, 124, 99)
                print(s["ID"], "clean=%d patched=%d" % (a, b), "VALID" if ok else "INVALID",
                      "| check exit", c.returncode, [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")][:1])
                if a:
                    print("  clean:", oa)
                if not ok or "-v" in sys.argv:
                    print("  patched:", ob)
                if not ok:
                    shutil.rmtree(d)
        finally:
            shutil.rmtree(w)


if __name__ == "__main__":
    main()
