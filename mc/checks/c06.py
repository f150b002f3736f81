"""C06: a SegmentTimeline MPD lists exactly the servable segments, and every listed segment is fetchable.
C07 (imported from here): listings of one session only slide."""
from fractions import Fraction as F
from .. import assets, env, model, core, iso, dash
from .c05 import get_mpd, HOST

PID = "C06"


def catalogue():
    out = {"sq": assets.make_sq(), "odd": assets.make_odd(), "stp": assets.make_stp(), "nine": assets.make_nine(),
           "six": assets.make_simple("six", 6, 3, first=2, tsbd=20, mpd_kw=dict(tmpl_ts=7)),
           "late": assets.make_late(), "cut": assets.make_cut(), "cot": assets.make_cut("cot", 3), "cue": assets.make_cue(),
           "gap": assets.make_dev("gap", 0, -60), "over": assets.make_dev("over", -40, 90), "one": assets.make_dev_one("one"), "holes": assets.make_holes("holes"), "hns": assets.make_hns("hns"),
           "hour": assets.make_simple("hour", 1, 3700)}
    return out


def reference(asset, rep, m, now):
    """[(number, start ticks, duration)] that the MPD must list at the whole second now."""
    d, ts = asset.dur, rep.timescale
    i0 = m.media0 // d
    base = m.first - i0
    last = (m.last - base) if m.last is not None else None
    t_now = (now - m.ast + m.media0) * ts
    if m.stop is not None:
        t_now = min(t_now, (m.stop - m.ast + m.media0) * ts + ts // 2)      # whole programme; grid deviation tolerated
        lo = 0
    else:
        lo = (now - m.tsbd - m.ast + m.media0) * ts
    out = []
    i = max(i0, lo // (d * ts) - 2)
    while True:
        if last is not None and i > last:
            break
        loops, k = divmod(i, asset.n)
        t = rep.segs[k][0] + loops * asset.loop * ts
        dur = rep.dur(k)
        if t + dur > t_now:
            break
        nxt = rep.segs[k + 1][0] + loops * asset.loop * ts if k < asset.n - 1 else (loops + 1) * asset.loop * ts + rep.segs[0][0]
        end = min(t + dur, nxt)     # until the next segment begins
        if end > lo:
            out.append((base + i, t, dur))
        i += 1
    return out


def option_sets(asset):
    d, L = asset.dur, asset.loop
    out = []
    if L > 3600:
        st = 400000 * L
        return [model.Opts(), model.Opts(tsbd=300), model.Opts(start=st, snr=7), model.Opts(start=st + 3000, timeoffset=0), model.Opts(tsbd=L + 5),
                model.Opts(start=st + 3000, stop=st + 7300)]
    for st, tmo in [(None, None), (600 * L, None), (600 * L + d, None), (100 * L + d + 1, None), (600 * L, 0), (600 * L + 3 * d, 0),
                    (600 * L + d, 7 * d), (600 * L, 600 * L - 2 * d)]:
        for snr in (None, 1, 7, -1):
            for tsbd in (None, 0, d, 2 * d + 1, L + d + 1, 3 * L):
                if snr in (1, -1) and tsbd not in (None, 2 * d + 1):
                    continue
                out.append(model.Opts(start=st, timeoffset=tmo, snr=snr, tsbd=tsbd))
    for st in (600 * L, 600 * L + d):
        for tmo in (None, 0, st - d):
            for nseg in (1, asset.n, asset.n + 2):
                out.append(model.Opts(start=st, timeoffset=tmo, stop=st + nseg * d))
                out.append(model.Opts(start=st, timeoffset=tmo, stop=st + nseg * d - 1, snr=3))
        for nseg in (2, asset.n + 2):
            out.append(model.Opts(start=st, durs=(nseg * d,), mup=5))
            out.append(model.Opts(start=st, durs=(nseg * d,), mup=5, snr=4, tsbd=2 * d))
    return out


def instants(asset, o, m, rep_ids=None):
    """Whole seconds around every event of the session over more than two loops (relative to AST)."""
    d, L = asset.dur, asset.loop
    if L > 3600:
        marks = sorted({x + e for x in (60, 255, 256, 1000, 1024, 3600, L, L + 60, L + 300, L + 3600, 2 * L) for e in (-2, -1, 0, 1, 2)})
        if o.stop is not None:
            marks = [x for x in marks if x <= o.stop - o.start] + [o.stop - o.start, o.stop - o.start + 5]
        b = 1600000000 // L * L
        return [m.ast + x for x in marks] + ([] if o.start is not None else [b + x for x in marks])
    if o.start is not None:
        rel = list(range(0, 2 * L + 2 * d + 2)) + list(range(5 * L - 1, 5 * L + d + 2))
        if o.stop is not None:
            n = m.stop - m.ast
            rel = [x for x in range(0, n + d + 2)] + [n + L, n + 10 * L]
        if o.durs:
            n = (m.last - m.first + 1) * d
            rel = [x for x in range(0, n + 30)] + [n + 55]
        rel = [-1] + rel
        return [m.ast + x for x in rel]
    b = 1600000000 // L * L
    return list(range(0, 2 * L + 2)) + list(range(b - d - 1, b + L + d + 1))


def step(acc, srv, asset, o, m, mode, now, fetch, frac=0):
    """One MPD fetch; returns {rep: [(number or None, t, d, path)]} or None."""
    path = "%s_1/%s%s/Manifest.mpd" % (mode, o.prefix(), asset.name)
    t = now + frac
    acc.state()
    mpd = get_mpd(acc, srv, path, t)
    if mpd is None:
        return None
    key = "%s@%s" % (path, t)
    if len(mpd.periods) != 1:
        acc.bad(key, "%d Periods" % len(mpd.periods))
        return None
    got = {}
    for ads in mpd.periods[0].sets:
        rep = asset.by_id[ads.reps[0]]
        if rep.ctype not in ("video", "audio"):
            if ads.timeline is None and fetch and o.stop is None and not o.durs:   # still described by number
                segs = ads.available(rep.id, F(now))
                for s in (segs[:1] + segs[-1:]):
                    r = srv.get(s.url[len(HOST):], t, prefix="")
                    acc.trans("number set")
                    if r.status != 200:
                        acc.bad("%s@%s" % (s.url, t), "advertised %s segment answered %s" % (rep.ctype, r.status), path=s.url, now=t)
            continue
        if ads.timeline is None:
            acc.bad(key, "no SegmentTimeline in the %s set" % rep.ctype, path=path, now=t)
            continue
        want = reference(asset, rep, m, now)
        have = []
        for s in ads.listed(rep.id):
            have.append((s.number if mode == "segtimelinenr" else None, s.t, s.d, s.url[len(HOST):]))
        if ads.timescale != rep.timescale:
            acc.bad(key, "timescale %d" % ads.timescale, path=path, now=t)
        acc.trans("timeline")
        w = [((n if mode == "segtimelinenr" else None), a, b) for n, a, b in want]
        h = [x[:3] for x in have]
        if w != h:
            acc.bad(key + "#" + rep.ctype, "%s timeline lists %s, expected %s" % (rep.ctype, brief(h), brief(w)), path=path, now=t)
            continue
        exp_pto = m.media0 * rep.timescale
        if ads.pto != exp_pto:
            acc.bad(key + "#pto", "%s presentationTimeOffset %d, expected %d" % (rep.ctype, ads.pto, exp_pto), path=path, now=t)
        got[rep.id] = have
        if fetch:
            sel = range(len(have)) if len(have) <= 4 else (0, 1, len(have) // 2, len(have) - 1)
            for i in sel:
                n, st, du, url = have[i]
                r = srv.get(url, t, prefix="")
                acc.trans("listed segment")
                if r.status != 200:
                    acc.bad("%s@%s" % (url, t), "listed segment answered %s %r" % (r.status, r.body[:80]), path=url, now=t)
                    continue
                try:
                    tr = iso.parse_segment(r.body, rep.trex).tracks[0]
                except (iso.IsoError, IndexError) as e:
                    acc.bad("%s@%s" % (url, t), "malformed %s" % e, path=url, now=t)
                    continue
                du2 = sum(x.dur for x in tr.samples)
                if (tr.tfdt, du2) != (st, du):
                    acc.bad("%s@%s" % (url, t), "listed as (%d,%d), segment is (%d,%d)" % (st, du, tr.tfdt, du2), path=url, now=t)
                if tr.seqno != want[i][0]:
                    acc.bad("%s@%s" % (url, t), "sequence number %d, expected %d" % (tr.seqno, want[i][0]), path=url, now=t)
    return got


def brief(x):
    return "%d segments %s" % (len(x), x if len(x) <= 4 else "%s..%s" % (x[:2], x[-2:]))


def shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    with env.Server([asset]) as srv:
        for o in option_sets(asset)[lo:hi]:
            m = model.Model(asset, o)
            for mode in ("segtimeline", "segtimelinenr"):
                for j, now in enumerate(instants(asset, o, m)):
                    if now < 0:
                        continue
                    step(acc, srv, asset, o, m, mode, now, fetch=(core.thorough() or j % 3 == 0 or j < 8), frac=0.75 if j % 5 == 4 else 0)
                acc.trace()
            acc.sample("segtimeline_1/%s%s: every whole second over 2 loops" % (o.prefix(), aname))


def main():
    jobs = []
    for a, asset in catalogue().items():
        n = len(option_sets(asset))
        for lo in range(0, n, 8):
            jobs.append(("shard", (a, lo, lo + 8)))
    return core.run_check(PID, __name__, jobs,
                          bounds="15 assets (timescales up to 1 GHz; media with gaps or overlaps of up to 90 ms, inside the loop and at its end, included) x ~100 option sets x both modes x every whole second over >2 loops (and around a recent-epoch loop); "
                                 "up to 4 listed segments fetched per list",
                          assumptions=["timeoffset such that the media time at availabilityStartTime is a multiple of the segment duration"])
