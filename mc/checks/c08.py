"""C08: multi-period MPDs."""
from fractions import Fraction as F
from xml.etree import ElementTree as ET
from .. import assets, env, model, core, dash, iso
from . import c05, c06
from .c05 import get_mpd, HOST

PID = "C08"
RATES = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
CONT = "urn:mpeg:dash:period_continuity:2014"
CALLBACK = "urn:mpeg:dash:event:callback:2015"


def catalogue():
    return {"sq": assets.make_sq(), "odd": assets.make_odd(), "six": assets.make_simple("six", 6, 3, first=2, tsbd=20, mpd_kw=dict(tmpl_ts=600)),
            "nine": assets.make_nine(), "cut": assets.make_cut(), "sev": assets.make_simple("sev", 7, 3, first=1), "late": assets.make_late(),
            "gap": assets.make_dev("gap", 0, -60), "over": assets.make_dev("over", -40, 90), "holes": assets.make_holes("holes"),
            "eight": assets.make_simple("eight", 8, 4, first=3)}


def configs(rate, asset):
    """(extra options, feature dict) for a rate."""
    P = 3600 // rate
    out = [((), {}), (("continuous_1",), dict(cont=True))]
    if "tmpl_ts" not in asset.mpd_kw:      # the timescale of a Period-level offset is open to interpretation
        out.append((("peroff_1", "continuous_1"), dict(cont=True)))
    for m in RATES:
        if rate % m == 0:
            if m in (rate, rate // 2, 1):
                out.append((("mpdcallback_%d" % m,), dict(cb=rate // m)))
                out.append((("etp_%d" % m,), dict(etp=rate // m, etpd=P // 2)))
    out.append((("etp_%d" % rate, "etpDuration_%d" % (P // 3), "continuous_1", "mpdcallback_%d" % rate),
                dict(etp=1, etpd=P // 3, cont=True, cb=1)))
    out.append((("segtimeline_1",), dict(tl="segtimeline")))
    out.append((("segtimelinenr_1", "continuous_1"), dict(tl="segtimelinenr", cont=True)))
    return out


def sessions(asset, rate):
    d = asset.dur
    out = []
    b = 1500000000 // d * d
    for st, tmo in [(None, None), (b, None), (b + 7 * d, 0), (600 * d, 601 * d - 2 * asset.loop - d)]:
        for snr in (None, 5, -1):
            for tsbd in (None, 70):
                if snr == 5 and tsbd:
                    continue
                out.append(model.Opts(start=st, timeoffset=tmo, snr=snr, tsbd=tsbd))
    return out


def instants(asset, o, m, rate):
    P = 3600 // rate
    d = asset.dur
    a = m.ast if o.start is not None else 0
    rel = []
    for k in (0, 1, 2, 5):
        rel += [k * P + x for x in (-1, 0, d - 1, d, d + 1, P // 2 - d, P // 2, P // 2 + 1)]
    ks = [r for r in rel if r >= (-1 if o.start is not None else 0)]
    out = [a + r for r in ks]
    if o.start is None:
        b = 1600000000 // P * P
        out += [b + x for x in (-P // 2, -1, 0, 1, d, P // 2)]
    return sorted(set(out))


def shard(acc, aname, rate, part):
    asset = catalogue()[aname]
    P = 3600 // rate
    with env.Server([asset]) as srv:
        for si, o in enumerate(sessions(asset, rate)):
            m = model.Model(asset, o)
            for ci, (ex, feat) in enumerate(configs(rate, asset)):
                if (si + ci) % 4 != part or (not core.thorough() and (si + ci) // 4 % 3):
                    continue
                if aname == "late" and "tl" not in feat:
                    continue            # only SegmentTimelines say when its segments start
                prev = None
                for now in instants(asset, o, m, rate):
                    prev = one(acc, srv, asset, o, m, rate, P, ex, feat, now, prev)
                acc.trace()
            acc.sample("periods_%d/%s%s at %d instants, all feature sets" % (rate, o.prefix(), aname, len(instants(asset, o, m, rate))))


def one(acc, srv, asset, o, m, rate, P, ex, feat, now, prev):
    path = "periods_%d/%s%s%s/Manifest.mpd" % (rate, "".join(e + "/" for e in ex), o.prefix(), asset.name)
    key = "%s@%s" % (path, now)
    acc.state()
    mpd = get_mpd(acc, srv, path, now)
    if mpd is None:
        return None

    def bad(what, text):
        acc.bad(key + "#" + what, text, path=path, now=now)
    rel = now - m.ast
    ps = mpd.periods
    base_nr = m.base_nr
    # --- tiling
    if ps[0].start > max(0, rel - m.tsbd):
        bad("cover", "first Period starts at %s, the time-shift buffer at %s" % (ps[0].start, rel - m.tsbd))
    if ps[-1].start > max(0, rel + P):
        bad("future", "last Period starts %s s ahead" % (ps[-1].start - rel))
    if ps[-1].end is not None and ps[-1].end <= rel and "etp" not in feat:
        bad("end", "last Period ends at %s, now %s" % (ps[-1].end, rel))
    if not any(p.start <= max(rel, 0) and (i == len(ps) - 1 or ps[i + 1].start > rel) for i, p in enumerate(ps)):
        bad("now", "no Period contains the current time")
    for p in ps:
        nr, rest = divmod(p.start, P)
        if rest:
            bad("grid", "Period start %s not a multiple of %d" % (p.start, P))
            return None
        etp = "etp" in feat and nr % feat["etp"] == 0
        if etp:
            if p.duration != feat["etpd"]:
                bad("etp", "early-terminated Period has duration %s, expected %s" % (p.duration, feat["etpd"]))
        elif p.duration is not None and p.duration != P:
            bad("dur", "Period duration %s" % p.duration)
        cb = [e for e in p.event_streams if e.get("schemeIdUri") == CALLBACK]
        if len(cb) != (1 if "cb" in feat and nr % feat["cb"] == 0 else 0):
            bad("cb", "Period %s has %d MPD callback streams" % (p.id, len(cb)))
        for e in cb:
            to = [x.get("messageData") for x in e]
            if to != ["http://h.example.com/livesim/mpdcallback/"]:
                bad("cb", "MPD callback of Period %s to %s" % (p.id, to))
    for a, b in zip(ps, ps[1:]):
        if b.start != a.start + P:
            bad("tile", "Period starts %s then %s" % (a.start, b.start))
    for i, p in enumerate(ps):
        for ads in p.sets:
            got = [v for s, v in ads.supp if s == CONT]
            want = [ps[i - 1].id] if feat.get("cont") and i > 0 else []
            if got != want:
                bad("cont", "continuity descriptor %s in Period %s, expected %s" % (got, p.id, want))
    if "tl" not in feat and mpd.mup != P // 2 - 5:
        bad("mup", "minimumUpdatePeriod %s, expected %d" % (mpd.mup, P // 2 - 5))
    # --- relation to the previous MPD of the session
    snap = {}
    for p in ps:
        sets = tuple((a.ctype, a.media, a.init, None if a.timeline is not None else (a.snr, a.duration), a.timescale, a.pto,
                      tuple(sorted(ET.tostring(r) for r in a.e.findall(dash.NS + "Representation")))) for a in p.sets)
        snap[p.id] = (p.start, sets)
    if prev is not None:
        for pid, v in snap.items():
            if pid in prev[0] and prev[0][pid] != v:
                bad("stable", "Period %s changed from %r to %r" % (pid, prev[0][pid], v))
            if pid not in prev[0] and v[0] in [x[0] for x in prev[0].values()]:
                bad("stable", "Period starting at %s changed id to %s" % (v[0], pid))
        if now > prev[1] and ps[0].start < prev[2]:
            bad("back", "first Period start moved back")
        # an update fetched in time always knows the Period in which it lies
        acc.trans("update")
    # --- segments
    if P % asset.dur and "tl" not in feat:
        acc.trans("period not a multiple of the segment duration")
    elif "tl" in feat:
        union = {}
        for p in ps:
            for ads in p.sets:
                rep = asset.by_id[ads.reps[0]]
                if rep.ctype not in ("video", "audio"):
                    continue
                if ads.timeline is None:
                    bad("tl", "no SegmentTimeline")
                    continue
                if ads.pto != (m.media0 + p.start) * rep.timescale:
                    bad("pto", "presentationTimeOffset %s in Period at %s" % (ads.pto, p.start))
                for s in ads.listed(rep.id):
                    union.setdefault(rep.id, []).append((s.number if feat["tl"] == "segtimelinenr" else None, s.t, s.d, s.url, p))
        for ads in ps[0].sets:
            rep = asset.by_id[ads.reps[0]]
            if rep.ctype not in ("video", "audio"):
                continue
            want = [((n if feat["tl"] == "segtimelinenr" else None), t, du) for n, t, du in c06.reference(asset, rep, m, now)]
            have = [x[:3] for x in union.get(rep.id, [])]
            acc.trans("timeline union")
            if have != want:
                bad("union#" + rep.id, "Periods together list %s, expected %s" % (c06.brief(have), c06.brief(want)))
            for x in union.get(rep.id, [])[:1] + union.get(rep.id, [])[-2:]:
                r = srv.get(x[3][len(HOST):], now, prefix="")
                acc.trans("listed segment")
                if r.status != 200:
                    acc.bad("%s@%s" % (x[3], now), "listed segment answered %s" % r.status, path=x[3], now=now)
                # inside its Period up to the irregularity of the segment grid
                mid = F(2 * x[1] + x[2], 2 * rep.timescale) - m.media0
                if not (x[4].start <= mid and (x[4].end is None or mid <= x[4].end)):
                    bad("owner", "segment t=%d listed in Period at %s" % (x[1], x[4].start))
    else:
        for i, p in enumerate(ps):
            if core.thorough() or i < 2 or i >= len(ps) - 2:
                c05.check_period(acc, srv, asset, o, mpd, p, now, mpd.base(), False, path, few=not core.thorough())
    return (snap, now, ps[0].start)


def far_shard(acc, aname):
    """periods_0: one Period that starts 1000 h after the session."""
    asset = catalogue()[aname]
    d, H = asset.dur, 3600000
    with env.Server([asset]) as srv:
        for o in sessions(asset, 1):
            m = model.Model(asset, o)
            for ex in ((), ("continuous_1",), ("peroff_1",), ("sidx_1",)):
                if ex == ("peroff_1",) and "tmpl_ts" in asset.mpd_kw:
                    continue
                path = "periods_0/%s%s%s/Manifest.mpd" % ("".join(e + "/" for e in ex), o.prefix(), asset.name)
                ids = set()
                for x in (0, 1, d, H - 1, H, H + d - 1, H + d, H + 2 * d + 1, H + asset.loop, 2 * H, 100 * H):
                    now = m.ast + x
                    acc.state()
                    mpd = get_mpd(acc, srv, path, now)
                    if mpd is None:
                        continue
                    ids |= {p.id for p in mpd.periods}
                    if len(mpd.periods) != 1 or mpd.periods[0].start != H:
                        acc.bad("%s@%s" % (path, now), "Periods start at %s, expected one at %d" % ([p.start for p in mpd.periods], H), path=path, now=now)
                    else:
                        for ads in mpd.periods[0].sets:
                            if ads.pto != (m.media0 + H) * ads.timescale:
                                acc.bad("%s@%s#pto" % (path, now), "presentationTimeOffset %s, expected %s" % (ads.pto, (m.media0 + H) * ads.timescale), path=path, now=now)
                        c05.check_period(acc, srv, asset, o, mpd, mpd.periods[0], now, mpd.base(), False, path)
                if len(ids) > 1:
                    acc.bad(path, "the Period changes its id: %s" % ids)
                acc.trace()


def refuse_shard(acc):
    """Rates that are not offered and rates which do not divide the number of Periods."""
    with env.Server([assets.make_sq()]) as srv:
        todo = ["periods_%d" % n for n in range(1, 61) if n not in RATES]
        for n in RATES:
            P = 3600 // n
            for k in range(1, 61):
                if n % k:
                    todo += ["periods_%d/etp_%d" % (n, k), "periods_%d/mpdcallback_%d" % (n, k)]
            todo += ["periods_%d/etp_%d/etpDuration_%d" % (n, n, x) for x in (P + 1, 2 * P, 10 * P)]
        for opts in todo:
            for tail in ("", "start_1599990000/"):
                acc.state()
                acc.trans("refused rate")
                r = srv.get("%s/%ssq/Manifest.mpd" % (opts, tail), 1600000000)
                if r.status == 200:
                    acc.bad(opts + tail, "%s is answered with an MPD" % opts, path=opts)
        for n in RATES:
            for opts in ["periods_%d/etp_%d/etpDuration_%d" % (n, n, x) for x in (1, 3600 // n)]:
                acc.state()
                r = srv.get("%s/sq/Manifest.mpd" % opts, 1600000000)
                if r.status != 200:
                    acc.bad(opts, "%s is answered %s" % (opts, r.status), path=opts)
    acc.trace()


def main():
    jobs = [("far_shard", (a,)) for a in catalogue() if 3600 % catalogue()[a].dur == 0 and a != "late"] + [("refuse_shard", ())]
    for a in catalogue():
        for rate in RATES:
            if (3600 // rate) % catalogue()[a].dur and a not in ("sev", "eight"):
                continue
            if a in ("six", "nine", "late", "eight", "gap", "over") and rate not in (3, 15, 60):
                continue
            for part in range(4):
                jobs.append(("shard", (a, rate, part)))
    return core.run_check(PID, __name__, jobs,
                          bounds="10 assets x all 12 legal period rates (6 assets with 3 rates) x 16 sessions (start/timeoffset/snr/tsbd) x continuous, "
                                 "etp, etpDuration, mpdcallback, segtimeline(nr) x ~40 instants around Period boundaries and midpoints",
                          assumptions=["segment addressing is judged where the segment duration divides the Period duration"])
