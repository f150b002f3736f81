"""Exhaustive exploration driver: sharding, counting, verdicts, evidence."""
import hashlib
import json
import os
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_t = time.time


class Acc:
    """Accumulates what one shard covered."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.viol = []          # (key, text, case)
        self.nviol = 0
        self.samples = []
        self.outcomes = {}
        self._seen = set()
        self.keys = set()

    def state(self, n=1):
        self.states += n

    def trans(self, outcome=None, n=1):
        self.transitions += n
        if outcome is not None:
            self.outcomes[outcome] = self.outcomes.get(outcome, 0) + n

    def trace(self, n=1):
        self.traces += n

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(s)

    def bad(self, key, text, **case):
        """Record a violation; key identifies the failing input canonically."""
        self.nviol += 1
        if key in self._seen:
            return
        self._seen.add(key)
        if len(self.viol) < 200:
            self.viol.append((key, text, case))


def _run(job):
    modname, fn, args = job
    import struct
    import importlib
    from . import env
    env.setup()
    acc = Acc()
    t0 = _t()
    if os.environ.get("MC_COV"):
        _coverage_on()
    try:
        mod = importlib.import_module(modname)
        getattr(mod, fn)(acc, *args)
        err = None
    except env.Hang as e:           # one is enough for this shard
        acc.bad("hang %s%r" % (fn, args), "the code never comes to an end: %s" % e, shard=repr((fn, args)))
        err = None
    except BaseException as e:
        # An answer the oracle cannot interpret at all (checks that only use the WSGI entry point)
        if isinstance(e, (ValueError, KeyError, IndexError, AssertionError, ZeroDivisionError, struct.error, TypeError, SyntaxError)) \
                and not getattr(sys.modules.get(modname), "DIRECT_API", False):
            acc.bad("uninterpretable %s%r" % (fn, args), "an answer of the server cannot be interpreted: %r\n%s" % (
                e, traceback.format_exc()[-1500:]), shard=repr((fn, args)))
        err = "shard %s%r: %s" % (fn, args, traceback.format_exc())
    if os.environ.get("MC_TIMES"):
        print("%6.1f s  %s%r" % (_t() - t0, fn, args), flush=True)
    if os.environ.get("MC_COV"):
        with open(os.path.join(os.environ["MC_COV"], "%d.json" % os.getpid()), "w") as f:
            json.dump(sorted(_lines), f)
    return dict(states=acc.states, transitions=acc.transitions, traces=acc.traces, viol=acc.viol, nviol=acc.nviol,
                samples=acc.samples, outcomes=acc.outcomes, err=err)


_lines = set()


def _coverage_on():
    """Development aid: record the source lines of the code under test that this process executes."""
    from . import env
    mon = sys.monitoring
    prefix = os.path.join(env.REPO, "dashlivesim")

    def line(code, n):
        if code.co_filename.startswith(prefix):
            _lines.add((code.co_filename[len(prefix) + 1:], n))
        return mon.DISABLE
    if mon.get_tool(1) is None:
        mon.use_tool_id(1, "mc")
        mon.register_callback(1, mon.events.LINE, line)
        mon.set_events(1, mon.events.LINE)


def known(pid):
    """Listed findings of this property: {key: text}."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def run_check(pid, modname, jobs, level="model_checking", assumptions=(), rule="", bounds="", workers=None, extra=None, fresh=False):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = _t()
    jobs = [(modname, fn, args) for fn, args in jobs]
    if os.environ.get("MC_SHUFFLE"):            # development aid: sampled order, stop at the first violation or after a time
        import random
        random.Random(5).shuffle(jobs)
    nw = int(os.environ.get("MC_WORKERS", 0)) or workers or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    results = []
    if nw == 1 and not fresh:
        results = []
        for j in jobs:
            results.append(_run(j))
            if os.environ.get("MC_SHUFFLE") and (results[-1]["nviol"] or results[-1]["err"] or _t() - t0 > float(os.environ["MC_SHUFFLE"])):
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nw, maxtasksperchild=1 if fresh else None) as pool:
            for r in pool.imap_unordered(_run, jobs, chunksize=1):
                results.append(r)
                if os.environ.get("MC_SHUFFLE") and (r["nviol"] or r["err"] or _t() - t0 > float(os.environ["MC_SHUFFLE"])):
                    break
    errs = [r["err"] for r in results if r["err"]]
    tot = {k: sum(r[k] for r in results) for k in ("states", "transitions", "traces", "nviol")}
    outcomes = {}
    for r in results:
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    viol = {}
    for r in results:
        for key, text, case in r["viol"]:
            viol.setdefault(key, (text, case))
    kf = known(pid)
    listed = sorted(k for k in viol if k in kf)
    new = sorted(k for k in viol if k not in kf)
    samples = [s for r in results for s in r["samples"]][:6] or ["(none)"]
    wall = _t() - t0
    cov = dict(samples=samples, exhaustive=True, bounds=bounds, outcomes=dict(sorted(outcomes.items())))
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    else:
        cov.update(evaluations=tot["transitions"], distinct_nontrivial=tot["states"], rule=rule)
    if extra:
        cov.update(extra)
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level,
              coverage=cov, assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(new))
    edir = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s [%s]: %d states, %d transitions, %d traces replayed on the implementation, %.1fs; outcomes %s" % (
        pid, tier, tot["states"], tot["transitions"], tot["traces"], wall, dict(sorted(outcomes.items()))))
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k] or viol[k][0]))
    if new:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for k in new[:10]:
            text, case = viol[k]
            path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(k.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=pid, key=k, text=text, case=case), f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   key=%s\n   %s" % (k, text))
        if os.environ.get("MC_DEBUG"):
            import re
            import collections
            c = collections.Counter()
            ex = {}
            for k in new:
                g = re.sub(r"\d+(\.\d+)?", "N", viol[k][0])[:160]
                c[g] += 1
                ex.setdefault(g, (k, viol[k][0]))
            for g, num in c.most_common(15):
                print("  %5d x %s\n        e.g. %s\n             %s" % (num, g, ex[g][0], ex[g][1][:300]))
        print("%s: %d distinct violations (%d occurrences)" % (pid, len(new), tot["nviol"]))
        return 1
    if errs:
        print("ERROR in %d shard(s):\n%s" % (len(errs), errs[0]))
        return 2
    return 0


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def thorough():
    return tier() == "thorough"
