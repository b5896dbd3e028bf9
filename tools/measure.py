"""Development tool: how the engine judges generated variants (tools/variants.py)."""
import sys, os, shutil, tempfile, json, random, time
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import variants
from collections import Counter, defaultdict
REPO = "/repo/src/qp"
REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "qp")
SKIP = ("_version.py", "version.py", "test_funcs.py", "test_data.py", "plotting.py")


def job(a):
    rel, func, kind, new = a
    from qpsa.conform import World
    d = tempfile.mkdtemp(dir="/tmp/w/var")
    try:
        os.rmdir(d)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("__pycache__", "data"))
        with open(os.path.join(d, rel), "w") as fh:
            fh.write(new)
        t = time.time()
        try:
            w = World(d, REF)
            res = w.run()
        except Exception as exc:
            import traceback
            return rel, func, kind, "crash", [traceback.format_exc()[-600:]], 0
        st = [(k, r.status, [repr(e)[:260] for e in r.edits[:4]], r.error) for k, r in res.items() if r.status != "same"]
        if any(s[1] in ("decisive", "vanished") for s in st):
            v = "alarm"
        elif any(s[1] == "unanalysed" for s in st):
            v = "unanalysed"
        elif any(s[1] == "undecided" for s in st):
            v = "undecided"
        elif st:
            v = "compensated"
        else:
            v = "same"
        return rel, func, kind, v, st, time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    which = sys.argv[1]
    n = int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    os.makedirs("/tmp/w/var", exist_ok=True)
    ops = variants.KEEP if which == "keep" else variants.BREAK
    if len(sys.argv) > 4:
        ops = [o for o in ops if o.__name__.split("_", 1)[1] in sys.argv[4].split(",")]
    jobs = []
    for dp, dn, fn in os.walk(REPO):
        for f in sorted(fn):
            if f.endswith(".py") and f not in SKIP:
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, REPO)
                for func, kind, new in variants.generate(open(p).read(), ops, seed):
                    jobs.append((rel, func, kind, new))
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "variants available")
    jobs = jobs[:n]
    if "-all" in sys.argv: pass
    out = []
    with Pool(8, maxtasksperchild=40) as p:
        for r in p.imap_unordered(job, jobs):
            out.append(r)
    c = Counter(r[3] for r in out)
    print(c, "max time", max(r[5] for r in out))
    bk = defaultdict(Counter)
    for r in out:
        bk[r[2]][r[3]] += 1
    for k, v in sorted(bk.items()):
        print("  ", k, dict(v))
    json.dump([dict(rel=r[0], func=r[1], kind=r[2], verdict=r[3], st=r[4], t=r[5]) for r in out], open(f"/tmp/w/measure_{which}.json", "w"), indent=1)


main()
