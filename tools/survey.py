"""Development aid: run many programs of one property and group what goes wrong.
   PYTHONPATH=/verif python tools/survey.py C04 2000 [base]"""
import os, re, sys, collections, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlab import runner
from simlab.sched import Choices

def work(a):
    pid, base, idx = a
    prop = runner.load_prop(pid)
    out = []
    for i in idx:
        prog, seed = runner.case_for(prop, base, i)
        try:
            v, st, ctx = prop.run_one(prog, Choices(seed=seed))
        except BaseException as e:
            out.append((i, "HARNESS", traceback.format_exc()[-600:]))
            continue
        if v is not None:
            out.append((i, v.kind, v.msg))
    return out

if __name__ == "__main__":
    pid, n = sys.argv[1], int(sys.argv[2])
    base = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    with mp.Pool(8) as p:
        res = p.map(work, [(pid, base, list(range(w, n, 32))) for w in range(32)], chunksize=1)
    g = collections.defaultdict(list)
    for r in res:
        for i, k, m in r:
            g[k + ": " + re.sub(r"[\d\[\]\(\),]+", "#", m)[:150]].append((i, m))
    for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
        i, m = min(v, key=lambda x: len(x[1]))
        print(len(v), "run", i, k.split(":")[0], "|", m[:600])
    print("total", sum(map(len, g.values())), "of", n)
