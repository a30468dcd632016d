#!/opt/venv/bin/python
"""run.py PID [--tier quick|thorough] [--replay FILE] [--sub NAME] [--seed N]

Decides one property by generated-input search. Exit 0: held on everything
explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import argparse
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import build as B  # noqa: E402

HANG_S = 200


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, pid, bdir, wid, wdir, variant, threads):
        self.wid = wid
        self.stat = os.path.join(wdir, f"status{wid}")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ)
        env.update(PYTHONPATH=bdir, PYTHONHASHSEED="0",
                   OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive",
                   DUCC0_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1",
                   HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(wdir, "hyp"))
        if variant == "asan":
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                                 capture_output=True, text=True).stdout.strip()
            ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"],
                                capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=lib + ":" + ub,
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:"
                       "allocator_may_return_null=1:handle_segv=1:"
                       "max_malloc_fill_size=1000000000:malloc_fill_byte=165:"
                       "detect_odr_violation=0",
                       UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:"
                       "abort_on_error=1")
            env.pop("MALLOC_PERTURB_")
        self.errf = open(os.path.join(wdir, f"stderr{wid}"), "wb+")

        def pre():
            # fds 3 (tasks in) and 4 (answers out)
            a = os.dup(r1)
            b = os.dup(w2)
            while a in (3, 4):
                a = os.dup(a)
            while b in (3, 4):
                b = os.dup(b)
            os.dup2(a, 3)
            os.dup2(b, 4)
            os.setsid()
        self.p = subprocess.Popen(
            [B.PY, os.path.join(VERIF, "lib", "worker.py"), pid, bdir,
             str(wid), wdir], env=env, preexec_fn=pre, close_fds=False,
            stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf)
        os.close(r1)
        os.close(w2)
        self.win = os.fdopen(w1, "w")
        self.rout = r2
        os.set_inheritable(w1, False)
        self.buf = b""
        self.task = None
        self.ready = False

    def send(self, t):
        self.task = t
        try:
            os.unlink(self.stat)
        except OSError:
            pass
        try:
            self.win.write(json.dumps(t) + "\n")
            self.win.flush()
        except BrokenPipeError:
            pass

    def read(self):
        """Returns (messages, eof)."""
        b = os.read(self.rout, 1 << 20)
        if not b:
            return [], True
        self.buf += b
        msgs = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            msgs.append(json.loads(line))
        return msgs, False

    def status(self):
        try:
            with open(self.stat) as fh:
                return json.load(fh)
        except (OSError, ValueError):
            return None

    def tail(self):
        try:
            self.errf.flush()
            with open(self.errf.name, "rb") as fh:
                return fh.read()[-6000:].decode(errors="replace")
        except OSError:
            return ""

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (lambda: self.win.close(), lambda: os.close(self.rout),
                  lambda: self.errf.close()):
            try:
                f()
            except OSError:
                pass


# more cases where they are cheap
QUICK = dict(P02=2, P03=2, P05=1, P06=3, P10=3, P11=2, P12=2, P13=1, P14=2, P19=2,
             P21=3, P22=3, P23=2, P25=2, P26=4, P30=2)


class Runner:
    def __init__(self, pid, tier, seed, nworkers, threads, budget, only=None,
                 scale=1.0):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.nworkers, self.threads = nworkers, threads
        self.t0 = time.time()
        self.budget = budget
        self.only = only
        self.scale = scale
        self.variant = "asan" if pid == "P31" else "opt"
        self.bdir = B.build(self.variant)
        self.wdir = tempfile.mkdtemp(prefix=f"nmtv_{pid}_")
        self.nextid = 0
        self.workers = []
        self.known = load_known(pid)

    def spawn(self):
        w = Worker(self.pid, self.bdir, self.nextid, self.wdir, self.variant,
                   self.threads)
        self.nextid += 1
        self.workers.append(w)
        return w

    def hello(self, w):
        while True:
            msgs, eof = w.read()
            if eof:
                raise HarnessError("worker died on start\n" + w.tail())
            if msgs:
                m = msgs[0]
                if not m["hello"]:
                    raise HarnessError(m["error"])
                w.ready = True
                return m

    def one_case(self, sub, case, timeout=HANG_S, isolate=None):
        """Runs one case alone in a fresh worker: (error or None, note)."""
        w = self.spawn()
        try:
            self.hello(w)
            t = {"op": "case", "sub": sub, "case": case}
            if isolate is not None:
                t["isolate"] = isolate
            w.send(t)
            sel = selectors.DefaultSelector()
            sel.register(w.rout, selectors.EVENT_READ)
            if not sel.select(timeout + 10):
                return f"the call did not return within {timeout} s", "hang"
            msgs, eof = w.read()
            if eof:
                rc = w.p.wait()
                if rc == -9:
                    return None, "killed"
                return death(rc, w.tail()), "death"
            m = msgs[0]
            if not m["ok"]:
                raise HarnessError(m["error"])
            return m["result"]["error"], "ok"
        finally:
            w.kill()
            self.workers.remove(w)

    def run(self):
        first = self.spawn()
        info = self.hello(first)
        self.info = info
        subs = [s for s in info["subs"]
                if self.only is None or s["name"] in self.only]
        slow_ok = {s["name"] for s in subs if s["slow_ok"]}
        deadline = self.t0 + self.budget
        shrink_s = 40.0 if self.tier == "quick" else 200.0
        tasks = []
        for s in subs:
            n = s["quick"] * QUICK.get(self.pid, 1) \
                if self.tier == "quick" else s["thorough"]
            n = max(1, int(round(n * self.scale)))
            sh = s["shards"] or min(self.nworkers, max(1, n // 3))
            if self.tier != "quick":
                sh = max(sh, min(4 * self.nworkers, n // 10))
            for k in range(sh):
                nk = n // sh + (1 if k < n % sh else 0)
                tasks.append((s["weight"] * nk, {
                    "op": "run", "sub": s["name"], "shard": k, "n": nk,
                    "seed": derive_seed(self.seed, self.pid, s["name"], k),
                    "deadline": deadline, "known": [
                        x for x in self.known if x["kind"] == "known"],
                    "examples": k == 0, "shrink_s": shrink_s}))
        tasks.sort(key=lambda t: -t[0])
        queue = [t for _, t in tasks]
        self.res = []
        self.failure = None
        self.incon = []
        sel = selectors.DefaultSelector()
        for _ in range(min(self.nworkers, len(queue)) - 1):
            self.spawn()
        for w in self.workers:
            sel.register(w.rout, selectors.EVENT_READ, w)
            if w.ready and queue:
                w.send(queue.pop(0))
        suspects = []
        while any(w.task for w in self.workers) or queue:
            for key, _ in sel.select(timeout=5):
                w = key.data
                if w not in self.workers:
                    continue
                msgs, eof = w.read()
                for m in msgs:
                    if not w.ready:
                        if not m["hello"]:
                            raise HarnessError(m["error"])
                        w.ready = True
                    elif not m["ok"]:
                        raise HarnessError(m["error"])
                    else:
                        r = m["result"]
                        self.res.append(r)
                        w.task = None
                        if r["inconclusive"]:
                            self.incon.append(r["sub"] + ": "
                                              + r["inconclusive"])
                        if r["failure"]:
                            self.failure = dict(r["failure"], sub=r["sub"])
                            return
                    if queue and w.task is None:
                        w.send(queue.pop(0))
                if eof:
                    rc = w.p.wait()
                    stt = w.status()
                    t = w.task
                    tail = w.tail()
                    sel.unregister(w.rout)
                    w.kill()
                    self.workers.remove(w)
                    if (w.ready and stt and stt["sub"] is None
                            and stt.get("last") and rc < 0):
                        stt["sub"] = stt["last"]  # late heap corruption
                    if not w.ready or stt is None or stt["sub"] is None:
                        raise HarnessError(
                            f"worker ended unexpectedly (rc={rc})\n{tail}")
                    if rc == -9:
                        self.incon.append(t["sub"] + ": worker was killed")
                    elif rc == -signal.SIGALRM and t["sub"] in slow_ok:
                        self.incon.append(t["sub"] + ": a case was slow")
                    else:
                        suspects.append((stt, death(rc, tail), t))
                        break
                    if queue:
                        nw = self.spawn()
                        sel.register(nw.rout, selectors.EVENT_READ, nw)
            if suspects:
                break
            now = time.time()
            for w in list(self.workers):
                if not w.task:
                    continue
                stt = w.status()
                if stt and stt["sub"] and now - stt["t"] > HANG_S + 15:
                    t = w.task
                    sel.unregister(w.rout)
                    w.kill()
                    self.workers.remove(w)
                    err, note = self.one_case(stt["sub"], stt["case"])
                    if note == "hang":
                        self.failure = {"sub": stt["sub"], "error": err,
                                        "case": stt["case"]}
                        return
                    self.incon.append(t["sub"] + ": a case was slow")
            # a worker that neither finishes nor starts a case
            if now > deadline + HANG_S + 60:
                self.incon.append("budget exceeded")
                break
        if suspects:
            stt, err, t = suspects[0]
            for w in list(self.workers):
                w.kill()
                self.workers.remove(w)
            self.failure = {"sub": stt["sub"], "case": stt["case"],
                            "error": err}
            # confirm in isolation and shrink there
            e1, note = self.one_case(stt["sub"], stt["case"], isolate=True)
            if e1 is None and note == "killed":
                self.incon.append("killed")
                self.failure = None
                return
            self.failure["reproduced_alone"] = bool(e1)
            if e1:
                t2 = dict(t, isolate=True,
                          deadline=time.time() + 120, shrink_s=30.0)
                w = self.spawn()
                self.hello(w)
                w.send(t2)
                sel2 = selectors.DefaultSelector()
                sel2.register(w.rout, selectors.EVENT_READ)
                if sel2.select(180):
                    msgs, eof = w.read()
                    if msgs and msgs[0]["ok"]:
                        f = msgs[0]["result"]["failure"]
                        if f:
                            self.failure.update(f)

    def close(self):
        for w in list(self.workers):
            w.kill()
        shutil.rmtree(self.wdir, ignore_errors=True)


def death(rc, tail):
    keep = [ln for ln in tail.splitlines()
            if "ERROR" in ln or "rror" in ln or "SUMMARY" in ln
            or "runtime" in ln or ln.strip().startswith("#")][:12]
    if rc < 0:
        s = f"process terminated by signal {-rc}"
    else:
        s = f"process terminated with exit status {rc}"
    return s + (": " + " | ".join(keep) if keep else "")


def derive_seed(*parts):
    import hashlib
    return int.from_bytes(hashlib.sha256(
        "/".join(map(str, parts)).encode()).digest()[:6], "big")


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fh:
            for ln in fh:
                ln = ln.strip()
                if ln and not ln.startswith("#") and ln.startswith("{"):
                    d = json.loads(ln)
                    if d["property"] == pid:
                        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = a.budget or (600 if tier == "quick" else 5400)
    t0 = time.time()
    try:
        R = Runner(pid, tier, a.seed, a.workers, 2, budget, a.sub, a.scale)
    except B.BuildError as e:
        print("BUILD ERROR\n" + str(e)[-4000:])
        return 2
    try:
        if a.replay:
            with open(a.replay) as fh:
                d = json.load(fh)
            err, note = R.one_case(d["sub"], d["case"])
            if err:
                print(f"{d['sub']}: {err}")
                print(f"VIOLATION property={pid} replay={a.replay}")
                return 1
            print("the property holds on this case")
            return 0
        R.run()
        fail = R.failure
        if fail is not None and "reproduced_alone" not in fail:
            try:
                err, note = R.one_case(fail["sub"], fail["case"])
                fail["reproduced_alone"] = bool(err)
            except HarnessError:
                fail["reproduced_alone"] = None
    except HarnessError as e:
        print("CHECK ERROR\n" + str(e))
        return 2
    finally:
        R.close()
    labels, keys, samples, ev = {}, set(), [], 0
    seen = {}
    known_hit = set()
    persub = {}
    for r in R.res:
        ev += r["evaluations"]
        keys.update(r["keys"])
        ps = persub.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0,
                                          "slowest_s": 0})
        ps["evaluations"] += r["evaluations"]
        ps["nontrivial"] += len(r["keys"])
        ps["slowest_s"] = round(max(ps["slowest_s"], r.get("maxdt", 0)), 2)
        for k, v in r["labels"].items():
            labels[r["sub"] + ":" + k] = labels.get(r["sub"] + ":" + k, 0) + v
        known_hit.update(r["known"])
        for s in r["samples"]:
            if seen.get(r["sub"], 0) < 2:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                samples.append(s)
    for k in R.known:
        if k["kind"] == "known":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - t0
    rule = R.info.get("rule", "") + " " + " ".join(
        f"[{s['name']}] {s['rule']}" for s in R.info["subs"] if s["rule"])
    evid = {"property": pid, "tier": tier, "seed": a.seed,
            "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys),
                         "rule": rule.strip(), "samples": samples,
                         "per_sub": persub, "labels": labels,
                         "inconclusive": R.incon,
                         "known_findings_hit": sorted(known_hit)},
            "assumptions": R.info.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": 0 if R.failure is None else 1}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as fh:
        json.dump(evid, fh, indent=1)
    if a.v:
        print(json.dumps(persub, indent=1))
        print(json.dumps(labels, indent=1))
    for s in R.incon:
        print("inconclusive: " + s)
    if R.failure is not None:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        p = f"{VERIF}/replays/{pid}.json"
        with open(p, "w") as fh:
            json.dump(dict(property=pid, **R.failure), fh, indent=1)
        print(f"{R.failure['sub']}: {R.failure['error']}")
        print("case: " + json.dumps(R.failure["case"])[:1500])
        print(f"reproduced alone: {R.failure.get('reproduced_alone')}")
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    print(f"{pid}: held on {ev} cases ({len(keys)} distinct non-trivial) "
          f"in {wall:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as e:
        print("CHECK ERROR\n" + str(e))
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
