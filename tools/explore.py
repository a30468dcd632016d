"""Runs many generated cases of one sub-check and groups the failures:
tools/dev.py tools/explore.py PID SUB N SEED [PROCS]"""
import os
os.environ["OMP_NUM_THREADS"] = "2"
import collections, importlib, json, multiprocessing, re, sys, tempfile
from lib import pbt
import random
pid, sub, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
nproc = int(sys.argv[5]) if len(sys.argv) > 5 else 8
mod = importlib.import_module("props.p%s" % pid[1:])
s = [q for q in mod.SUBS if q.name == sub][0]
class RD(pbt.Draw):
    def __init__(self, seed):
        self.r = random.Random(seed)
    def int(self, a, b):
        return self.r.randint(a, b)
    def bool(self):
        return self.r.random() < 0.5
    def choice(self, xs):
        return self.r.choice(list(xs))
    def seed(self):
        return self.r.randrange(2**31)
    def float(self, a, b):
        return self.r.uniform(a, b)
    def perm(self, xs):
        return self.r.sample(list(xs), len(list(xs)))
    def binary(self, a, b):
        return self.r.randbytes(self.r.randint(a, b)).hex()
def work(k):
    out = []
    with tempfile.TemporaryDirectory() as td:
        for i in range(k, n, nproc):
            d = RD(seed * 1000003 + i)
            case = s.gen(d)
            try:
                ctx, err = pbt.run_case_forked(s, case, td)
            except BaseException as e:
                err = "HARNESS " + repr(e)
                ctx = pbt.Ctx()
            if err:
                out.append((err, case))
    return out
if __name__ == "__main__":
    with multiprocessing.get_context("fork").Pool(nproc) as p:
        res = sum(p.map(work, range(nproc)), [])
    g = collections.defaultdict(list)
    for e, c in res:
        key = (c.get("name"), re.sub(r"[0-9.e+-]+", "#", e)[:110])
        g[key].append((e, c))
    print(len(res), "failures of", n)
    for k, v in sorted(g.items(), key=lambda t: str(t[0])):
        v.sort(key=lambda t: len(json.dumps(t[1])))
        print(len(v), k[0], "|", v[0][0][:260])
        print("     ", json.dumps(v[0][1]))
