"""Check driver: obligations, known findings, evidence, exit status."""
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import importlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Deadline(BaseException):
    """the time of the check is used up"""


def on_deadline(*_):
    raise Deadline()


class Lost(Exception):
    """the analysis has lost its anchor for a whole rule group"""


class Check:
    def __init__(self, pid, P, tier):
        self.pid, self.P, self.tier = pid, P, tier
        self.n = {}            # rule -> [discharged, undecided, violated]
        self.viol = {}         # key -> text
        self.und = []
        self.rules = {}
        self.samples = {}
        self.fns = set()
        self.notes = []
        self.assume = []
        self.floors = {}
        self.t0 = time.time()
        self.budget = float(os.environ.get("LC3_BUDGET", "690" if tier == "quick" else "20000"))

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.n.setdefault(name, [0, 0, 0])
        self.floors[name] = floor

    def ok(self, rule, inst=None, n=1):
        self.n.setdefault(rule, [0, 0, 0])[0] += n
        if inst is not None and len(self.samples.setdefault(rule, [])) < 4:
            self.samples[rule].append(str(inst)[:300])

    def undecided(self, rule, text):
        self.n.setdefault(rule, [0, 0, 0])[1] += 1
        if len(self.und) < 300:
            self.und.append("%s: %s" % (rule, text))

    def violation(self, rule, key, text):
        self.n.setdefault(rule, [0, 0, 0])[2] += 1
        k = "%s|%s" % (rule, key)
        if k not in self.viol:
            self.viol[k] = text

    def judge(self, rule, key, res, text, inst=None):
        """res True/False/None"""
        if res is True:
            self.ok(rule, inst or key)
        elif res is False:
            self.violation(rule, key, text() if callable(text) else text)
        else:
            self.undecided(rule, "%s: %s" % (key, text() if callable(text) else text))

    def saw(self, X):
        self.fns.update(X.analysed)

    def pmap(self, fn, items, jobs=None):
        """fn(K, item) for every item, on several processes; the records are merged in item order"""
        import pickle
        from .interp import Limit
        items = list(items)
        jobs = min(jobs or int(os.environ.get("LC3_JOBS", "0")) or os.cpu_count() or 1, max(1, len(items)))
        pipes = []
        sys.stdout.flush()
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    out = []
                    signal.signal(signal.SIGALRM, on_deadline)
                    for i in range(j, len(items), jobs):
                        c = Check(self.pid, self.P, self.tier)
                        try:
                            left = self.t0 + self.budget - time.time()
                            if left < 1:
                                raise Deadline()
                            try:
                                signal.setitimer(signal.ITIMER_REAL, left)
                                fn(c, items[i])
                            finally:
                                signal.setitimer(signal.ITIMER_REAL, 0)
                        except Deadline:
                            c.undecided("limit", "the time of the check was used up (item %d)" % i)
                        except Limit as e:
                            c.undecided("limit", "%s (item %d)" % (e, i))
                        except Exception as e:
                            c.undecided("limit", "item %d stopped: %r %s" % (i, e, traceback.format_exc()[-300:].replace("\n", " ")))
                        out.append((i, c.n, c.viol, c.und, c.samples, c.fns))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            pipes.append((pid, r))
        res = []
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f:
                b = f.read()
            os.waitpid(pid, 0)
            if b:
                res += pickle.loads(b)
            else:
                self.undecided("limit", "a worker of the analysis ended without a result")
        for i, n, viol, und, samples, fns in sorted(res, key=lambda x: x[0]):
            for k, x in n.items():
                y = self.n.setdefault(k, [0, 0, 0])
                for a in range(3):
                    y[a] += x[a]
            for k, t in viol.items():
                self.viol.setdefault(k, t)
            self.und = (self.und + und)[:300]
            for k, x in samples.items():
                y = self.samples.setdefault(k, [])
                y += x[:max(0, 4 - len(y))]
            self.fns |= fns


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=C33 key=<key> :: text
                head, _, text = l[8:].partition("::")
                d = {}
                for part in head.split():
                    if "=" in part:
                        k, _, v = part.partition("=")
                        d[k] = v
                out.append((d.get("property"), d.get("key"), text.strip()))
    return out


def get_dump():
    """MIR dump of the current /repo tree"""
    if os.environ.get("LC3_DUMP"):
        return os.environ["LC3_DUMP"]
    b = os.environ.get("LC3_BUILD") or os.path.join(ROOT, ".build")
    os.makedirs(b, exist_ok=True)
    out = os.path.join(b, "mir.%d.json" % os.getpid())
    r = subprocess.run(["bash", os.path.join(ROOT, "dump.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-4000:])
        print("ERROR: cannot build and dump the crate")
        sys.exit(2)
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from .mir import Prog
    from .interp import Limit

    dump = get_dump()
    P = Prog(dump)
    if not os.environ.get("LC3_DUMP"):
        os.unlink(dump)
    K = Check(pid, P, tier)
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("rules." + pid)
    err = None
    signal.signal(signal.SIGALRM, on_deadline)
    signal.setitimer(signal.ITIMER_REAL, K.budget + 60)
    try:
        mod.run(K)
    except Deadline:
        K.undecided("limit", "the time of the check was used up")
        K.floors = {}
    except Limit as e:
        # a construct outside the analysis: what was decided so far stands, the rest is undecided
        K.undecided("limit", "%s (analysis stopped)" % e)
        K.floors = {}
    except Exception as e:
        # an anchor the rules need is gone (or an internal error): what was decided so far stands
        err = traceback.format_exc()
        K.undecided("limit", "analysis stopped: %r" % (e,))
    signal.setitimer(signal.ITIMER_REAL, 0)
    code = finish(K, mod, time.time() - t0, seed, err)
    sys.stdout.flush()
    sys.exit(code)


def finish(K, mod, wall, seed, err):
    pid = K.pid
    tot = [sum(x[i] for x in K.n.values()) for i in range(3)]
    known = {(k): t for p, k, t in known_findings() if p == pid}
    real, kn = [], []
    for k, t in K.viol.items():
        kk = k.replace(" ", "_")
        if kk in known:
            kn.append((k, t))
        else:
            real.append((k, t))
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    expl = ("Abstract interpretation of the compiler's MIR for the current /repo tree. "
            + getattr(mod, "EXPLAIN", "")
            + " Obligations %d, discharged %d, undecided %d, violated %d." % (sum(tot), tot[0], tot[1], tot[2]))
    ev = {
        "property": pid, "tier": K.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": expl,
            "obligations": sum(tot), "discharged": tot[0], "undecided": tot[1],
            "rules": {r: {"rule": K.rules.get(r, ""), "discharged": x[0], "undecided": x[1], "violated": x[2],
                          "samples": K.samples.get(r, [])} for r, x in K.n.items()},
            "functions_analysed": sorted(K.fns)[:400],
            "functions_analysed_count": len(K.fns),
            "undecided_list": K.und[:60],
            "notes": K.notes,
            "known_findings": [k for k, _ in kn],
            "violations_list": [{"key": k, "text": t} for k, t in real],
        },
        "assumptions": K.assume + getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2), "violations": len(real),
    }
    path = os.path.join(evd, pid + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    for k, t in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, t))
    for r, x in K.n.items():
        print("rule %-28s discharged %4d  undecided %3d  violated %3d" % (r, x[0], x[1], x[2]))
    for u in K.und[:12]:
        print("UNDECIDED", u[:400])
    for k, t in real:
        print("FAIL %s: %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if real:
        return 1
    if err:
        print(err)
        if tot[0] == 0:
            print("ERROR: the analysis failed; no verdict")
            return 2
        K.floors = {}
    if K.n.get("limit", (0, 0))[1]:
        # parts of the analysis stopped at a construct it does not cover: listed as undecided
        K.floors = {}
    low = [r for r, f in K.floors.items() if K.n[r][0] + K.n[r][1] + K.n[r][2] < f]
    if low:
        print("ERROR: rules below their floor of analysed sites (anchors lost): %s" % ", ".join("%s %s<%d" % (r, K.n[r], K.floors[r]) for r in low))
        return 2
    print("OK property=%s obligations=%d discharged=%d undecided=%d wall=%.1fs" % (pid, sum(tot), tot[0], tot[1], wall))
    return 0
