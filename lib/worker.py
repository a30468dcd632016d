"""Worker process: receives tasks as JSON lines on fd 3, answers on fd 4."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, VERIF)


def main():
    pid, builddir, wid, wdir = sys.argv[1:5]
    fin = os.fdopen(3, "r")
    fout = os.fdopen(4, "w")

    def send(d):
        fout.write(json.dumps(d) + "\n")
        fout.flush()
    try:
        import warnings
        warnings.simplefilter("ignore")
        from lib import pbt
        sys.path[0:0] = [builddir]
        import pymaster
        import _nmtlib
        for m in (pymaster, _nmtlib):
            if not m.__file__.startswith(builddir):
                raise ImportError("wrong library: " + m.__file__)
        mod = importlib.import_module("props." + pid.lower())
        subs = {s.name: s for s in mod.SUBS}
        import gc
        gc.collect()
        gc.freeze()      # makes later collections cheap
        os.makedirs(wdir, exist_ok=True)
        scratch = os.path.join(wdir, "scratch%s" % wid)
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
    except BaseException:
        send({"hello": False, "error": traceback.format_exc()})
        return
    send({"hello": True, "subs": [
        dict(name=s.name, quick=s.quick, thorough=s.thorough,
             shards=s.shards, weight=s.weight, isolate=s.isolate,
             slow_ok=s.slow_ok,
             rule=s.rule) for s in mod.SUBS],
        "rule": getattr(mod, "RULE", ""),
        "assumptions": getattr(mod, "ASSUMPTIONS", [])})
    stat = os.path.join(wdir, "status%s" % wid)

    last = {}

    def status(name, case):
        if name is None:
            name, case = None, last.get("c")
        else:
            last["c"] = case
            last["s"] = name
        with open(stat + ".t", "w") as fh:
            json.dump({"sub": name, "case": case, "t": time.time(),
                       "last": last.get("s")}, fh)
        os.replace(stat + ".t", stat)
    for line in fin:
        t = json.loads(line)
        if t["op"] == "quit":
            break
        try:
            s = subs[t["sub"]]
            if t["op"] == "run":
                r = pbt.run_sub(s, t["seed"], t["n"], status, t["deadline"],
                                known=t["known"], scratch=scratch,
                                use_examples=t["examples"],
                                isolate=t.get("isolate"),
                                shrink_s=t["shrink_s"])
            elif t["op"] == "case":
                status(s.name, t["case"])
                f = (pbt.run_case_forked if t.get("isolate", s.isolate)
                     else pbt.run_case)
                ctx, err = f(s, t["case"], scratch)
                status(None, None)
                r = {"error": err, "labels": ctx.labels, "nt": ctx.nt}
            send({"ok": True, "task": t, "result": r})
        except BaseException:
            send({"ok": False, "task": t, "error": traceback.format_exc()})


main()
