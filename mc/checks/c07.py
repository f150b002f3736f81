"""C07: between any two SegmentTimeline MPDs of a session the listing only slides."""
from .. import env, model, core
from . import c06

PID = "C07"


def shard(acc, aname, lo, hi):
    asset = c06.catalogue()[aname]
    with env.Server([asset]) as srv:
        for o in c06.option_sets(asset)[lo:hi]:
            if asset.loop > 3600 and ((o.tsbd or 0) > 3600 or o.stop is not None):
                continue            # lists of thousands of segments: C06
            m = model.Model(asset, o)
            for mode in ("segtimeline", "segtimelinenr"):
                hist = []
                for now in history(asset, o, m):
                    got = listing(acc, srv, asset, o, mode, now)
                    if got is not None:
                        hist.append((now, got))
                pairs(acc, "%s_1/%s%s" % (mode, o.prefix(), aname), asset, m, hist)
                acc.trace()
            acc.sample("all pairs of MPD fetches of segtimeline_1/%s%s" % (o.prefix(), aname))


def history(asset, o, m):
    d, L = asset.dur, asset.loop
    base = m.ast if o.start is not None else 1600000000 // L * L - d - 1
    if L > 3600:
        return c06.instants(asset, o, m)[::2]
    n = min(2 * L + 2 * d, 48) if not core.thorough() else 3 * L + 2 * d
    if o.stop is not None or o.durs:
        n = (m.last - m.first + 1) * d + d + 3
    rel = list(range(0, n)) + [5 * L, 5 * L + d]
    if o.durs:
        rel = list(range(0, n + 20))
    return [base + x for x in rel]


def listing(acc, srv, asset, o, mode, now):
    path = "%s_1/%s%s/Manifest.mpd" % (mode, o.prefix(), asset.name)
    mpd = c06.get_mpd(acc, srv, path, now)
    acc.state()
    if mpd is None:
        return None
    out = {}
    for ads in mpd.periods[0].sets:
        if ads.timeline is None:
            continue
        rid = ads.reps[0]
        segs = ads.listed(rid)
        # the number-based identity of a segment matters only when addresses use it
        out[rid] = [(s.t, s.d, s.url, s.number if mode == "segtimelinenr" else None, s.pto) for s in segs]
    if mpd.type == "dynamic" and mpd.mup is None:
        acc.bad("%s@%s#mup" % (path, now), "dynamic SegmentTimeline MPD without minimumUpdatePeriod", path=path, now=now)
    return out, mpd.pub


def pairs(acc, name, asset, m, hist):
    for i in range(len(hist)):
        t1, (l1, p1) = hist[i]
        for j in range(i + 1, len(hist)):
            t2, (l2, p2) = hist[j]
            acc.trans("pair")
            key = "%s@%s,%s" % (name, t1, t2)
            if p2 < p1:
                acc.bad(key + "#pub", "publishTime moves backwards", path=name, now=[t1, t2])
            if set(l1) != set(l2):
                acc.bad(key + "#sets", "timelines for %s, later for %s" % (sorted(l1), sorted(l2)), path=name, now=[t1, t2])
                continue
            for rid in l1:
                a, b = l1[rid], l2[rid]
                if not a:
                    continue
                if not b:
                    if m.tsbd >= 2 * asset.dur and m.stop is None and not m.o.durs and j == i + 1:
                        acc.bad(key + "#" + rid, "listing becomes empty", path=name, now=[t1, t2])
                    continue
                da = {x[0]: x for x in a}
                for x in b:
                    y = da.get(x[0])
                    if y is not None and y != x:
                        acc.bad(key + "#" + rid, "entry changes from %s to %s" % (y, x), path=name, now=[t1, t2])
                        break
                if b[0][0] < a[0][0]:
                    acc.bad(key + "#" + rid, "first listed segment moves back from t=%d to t=%d" % (a[0][0], b[0][0]), path=name, now=[t1, t2])
                if b[-1][0] < a[-1][0]:
                    acc.bad(key + "#" + rid, "last listed segment moves back from t=%d to t=%d" % (a[-1][0], b[-1][0]), path=name, now=[t1, t2])
                # a segment that is longer than the time until the next one is complete a little later
                gap, over = deviation(asset, rid)
                if t2 - t1 <= m.tsbd - (1 if over else 0) and b[0][0] > a[-1][0] + a[-1][1] + gap:
                    acc.bad(key + "#" + rid, "gap between listings: %d .. %d" % (a[-1][0] + a[-1][1], b[0][0]), path=name, now=[t1, t2])
                # entries of the union inside both windows are present in both
                for x in a:
                    if b[0][0] <= x[0] <= b[-1][0] and x[0] not in {y[0] for y in b}:
                        acc.bad(key + "#" + rid, "entry t=%d disappears" % x[0], path=name, now=[t1, t2])
                        break
                    if x[0] > b[-1][0]:
                        break


def deviation(asset, rid):
    """Ticks of the largest gap and of the largest overlap between consecutive segments (the wrap of the loop included)."""
    rep = asset.by_id[rid]
    starts = [x[0] for x in rep.segs[:asset.n]] + [rep.segs[0][0] + asset.loop * rep.timescale]
    d = [starts[k + 1] - starts[k] - rep.dur(k) for k in range(asset.n)]
    return max(0, *d), max(0, *[-x for x in d])


def main():
    jobs = []
    for a, asset in c06.catalogue().items():
        n = len(c06.option_sets(asset))
        for lo in range(0, n, 6):
            jobs.append(("shard", (a, lo, lo + 6)))
    return core.run_check(PID, __name__, jobs,
                          bounds="13 assets x ~100 option sets x both modes; all pairs among 20-50 whole-second fetch instants per session")
