"""mut.py PID file old new [file old new ...]: run check on a mutated copy"""
import sys, os, shutil, subprocess, tempfile
def run(pids, edits, count=1):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/pylbm", d + "/pylbm")
        for f, o, n in edits:
            p = d + "/pylbm/" + f
            s = open(p).read()
            if o not in s:
                return ["NOMATCH %s: %r" % (f, o)]
            s = s.replace(o, n, count)
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return ["SYNTAX %r: %s" % (n, e)]
            open(p, "w").write(s)
        out = []
        for pid in pids:
            try:
                r = subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "check"), pid], env=dict(os.environ, PYLBM_REPO=d), capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return ["TIMEOUT"]
            out.append((pid, r.returncode, [l for l in r.stdout.splitlines() if l.startswith("  ")][:3]
                        or r.stdout[-300:] if r.returncode else ""))
        return out
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    a = sys.argv[2:]
    for x in run(sys.argv[1].split(","), [tuple(a[i:i+3]) for i in range(0, len(a), 3)]): print(x)


def suite(pid):
    """r(kind, edits...): kind B must be reported, kind R must stay quiet; c = occurrence count replaced"""
    import concurrent.futures
    jobs = []
    ex = concurrent.futures.ThreadPoolExecutor(8)

    def r(kind, *e, **kw):
        jobs.append((kind, e, ex.submit(run, [pid], list(e), kw.get("c", 1))))

    def done():
        bad = 0
        for kind, e, f in jobs:
            x = f.result()[0]
            ok = not isinstance(x, str) and x[1] == (1 if kind == "B" else 0)
            bad += not ok
            print("OK " if ok else "BAD", kind, e[0][2][:60].replace("\n", " "), x if isinstance(x, str) else (
                x[1], str(x[2])[:200]))
        print(pid, len(jobs), "mutants,", bad, "unexpected")
    return r, done
