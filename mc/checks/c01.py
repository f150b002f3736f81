"""C01: availability window of media segments."""
from fractions import Fraction as F
from .. import assets, env, model, core

PID = "C01"


def catalogue():
    return {"sq": assets.make_simple("sq", 2, 4), "odd": assets.make_simple("odd", 3, 5, first=5, tsbd=25),
            "six": assets.make_simple("six", 6, 2, first=0, tsbd=7)}


def option_sets(asset, base):
    """All option combinations explored for one asset, anchored near `base`."""
    out = []
    starts = [None] if base is None else [base, base + 1]
    for st in starts:
        for snr in (None, 0, 1, 7, -1):
            for ato in (None, 0, 0.5, asset.dur - 1, asset.dur + 1.25, "inf"):
                for tsbd in (None, 0, 1, 10):
                    out.append(model.Opts(start=st, snr=snr, ato=ato, tsbd=tsbd, key="start"))
        out += [model.Opts(start=st, ato=ato, key="start") for ato in (61, 90.5, 3700)]
    if base:
        d = asset.dur
        for key in (1, -1):
            # limited sessions: the end is far away, within the explored window, or defined by a stop time
            for tsbd in (None, 0, 1, 10):
                for snr in (None, 7, -1):
                    for kw in (dict(durs=(600 * d,)), dict(durs=(2 * d, 300 * d)), dict(durs=(4 * d,)), dict(stop=base + 600 * d), dict(stop=base + 3 * d + 1),
                               dict(timeoffset=0), dict(timeoffset=0, durs=(600 * d,))):
                        kw = dict(kw)
                        if key < 0:
                            kw["ato"] = 0.5
                        st = base
                        if "durs" in kw:
                            st = base // d * d
                        elif "timeoffset" in kw:
                            kw["timeoffset"] = base // asset.loop * asset.loop - asset.loop
                            if kw["timeoffset"] < 0:
                                continue
                        if "timeoffset" in kw and "durs" in kw:
                            kw["timeoffset"] = max(0, st - asset.loop - d)
                        out.append(model.Opts(start=st, snr=snr, tsbd=tsbd, **kw))
    return out


def shard(acc, aname, base, lo, hi):
    asset = catalogue()[aname]
    d = asset.dur
    eps = F(1, 64)
    with env.Server([asset]) as srv:
        for o in option_sets(asset, base)[lo:hi]:
            m = model.Model(asset, o)
            anchors = [m.ast] if base is not None else [0, 1600000000 // d * d, 47721 // d * d]
            for anchor in anchors:
                # instants: every boundary of every relevant segment's window, and both sides of it
                n0 = m.first + (anchor - m.ast) // d
                numbers = [n for n in range(n0 - 2, n0 + 5) if n >= 0]
                instants = set()
                for n in numbers:
                    for edge in (m.avail_from(n), m.avail_until(n)):
                        for e in (-1, 0, 1):
                            instants.add(edge + e * eps)
                        instants.add(edge + 1)
                        instants.add(edge - F(1, 2))
                for e in (-1, F(-1, 2), 0, F(1, 2), d):
                    instants.add(F(m.ast + e))
                    instants.add(F(anchor + e))
                end = None
                if o.durs:
                    end = o.start + sum(o.durs) + 60        # (the server may forget the session; see C10)
                for now in sorted(i for i in instants if i >= 0 and (end is None or i < end)):
                    acc.state()
                    for n in numbers:
                        want = m.available(n, now)
                        path = "%s%s/V1/%d.m4s" % (o.prefix(), aname, n)
                        r = srv.get(path, float(now))
                        acc.trans("served" if want else "refused")
                        ok = (r.status == 200) if want else (r.status == 404)
                        if not ok:
                            acc.bad("%s@%s" % (path, float(now)),
                                    "segment %d of %s at %s: model says %s, server answered %s %r" % (
                                        n, path, float(now), "available" if want else "not available", r.status,
                                        r.body[:80]), path=path, now=float(now), want=want, got=r.status)
            acc.trace()
            acc.sample("%s%s: availability window of %d numbers at every boundary instant" % (o.prefix(), aname, 7))


def main():
    jobs = []
    cat = catalogue()
    bases = [None, 1500000000, 60] if not core.thorough() else [None, 1500000000, 60, 4294967296, 47719, 7]
    for a in cat:
        for base in bases:
            total = len(option_sets(cat[a], base))
            step = 20
            for lo in range(0, total, step):
                jobs.append(("shard", (a, base, lo, lo + step)))
    return core.run_check(
        PID, __name__, jobs,
        bounds="3 assets x AST in {0, aligned, unaligned} x startNumber x availabilityTimeOffset x timeShiftBufferDepth; "
               "7 consecutive numbers at every window edge, +-1/64 s",
        assumptions=["virtual clock replaces time.time()", "requests go through the WSGI entry point"])
