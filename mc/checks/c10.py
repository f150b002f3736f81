"""C10: life cycle of time-limited sessions (start_/dur_)."""
from fractions import Fraction as F
from .. import assets, env, model, core, iso, dash
from .c05 import get_mpd

PID = "C10"


def catalogue():
    return {"sq": assets.make_simple("sq", 2, 4), "odd": assets.make_simple("odd", 3, 5, first=5, tsbd=25),
            "six": assets.make_simple("six", 6, 2, first=0, tsbd=7), "stp": assets.make_stp()}


def option_sets(asset):
    d = asset.dur
    out = []
    for st in (60, 1500000000, 1500000001):
        for durs in ((d,), (10 * d,), (20 * d, 10 * d), (9 * d, 11 * d, d), (100 * d, 50 * d), (16 * d, 14 * d, 20 * d, 2 * d)):
            for mup in (None, 1, 5, 30):
                for snr, tmo, tsbd in ((None, None, None), (7, None, 90), (-1, None, 200), (None, 5 * d, 200), (3, 40 * d, 200)):
                    if (tmo or 0) > st or (mup, snr) in ((1, 7), (30, -1), (5, 3), (1, -1)):
                        continue
                    out.append(model.Opts(start=st, durs=durs, mup=mup, snr=snr, timeoffset=tmo, tsbd=tsbd))
    return out


def shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    d = asset.dur
    with env.Server([asset]) as srv:
        for o in option_sets(asset)[lo:hi]:
            walk(acc, srv, asset, o)


def walk(acc, srv, asset, o):
    d = asset.dur
    m = model.Model(asset, o)
    ends, tot = [], 0
    for x in o.durs:
        tot += x
        ends.append(((o.start + tot) // d * d, tot))
    final = ends[-1][0]
    path = "%s%s/Manifest.mpd" % (o.prefix(), asset.name)
    # every second around the switches and the end, a grid elsewhere
    instants = set()
    mup0 = o.mup or 10
    for e, _ in ends:
        for x in (e, e - 2 * mup0, e - mup0, e + 60):
            for k in (-d - 1, -2, -1, 0, 1, 2, d + 1):
                instants.add(F(x + k))
            instants.add(F(x) + F(1, 2))
            instants.add(F(x) - F(1, 64))
    for k in range(0, 8):
        instants.add(F(m.ast + (final - m.ast) * k // 8))
    for k in (-100, -1, 0, 1, d, d + 1):
        instants.add(F(m.ast + k))
    for k in (59, 60, 61, 62, 100, 1000, 100000):
        instants.add(F(final + k))
    prev = None
    for now in sorted(i for i in instants if i >= 0):
        acc.state()
        t = float(now)
        key = "%s@%s" % (path, t)
        mpd = get_mpd(acc, srv, path, t)
        if mpd is not None:
            acc.trans("mpd")
            mup = mpd.mup
            if mpd.type != "dynamic" or mpd.ast != m.ast or (o.mup is not None and mup != o.mup) or mup is None:
                acc.bad(key, "type %s, AST %s, mup %s" % (mpd.type, mpd.ast, mpd.mup), path=path, now=t)
            else:
                want = set()
                for at in {now, F(int(now))}:           # the switch happens within the second of the limit
                    want.add(ends[next((i for i, (e, _) in enumerate(ends) if at <= e - 2 * mup), len(ends) - 1)])
                got = (mpd.aet, mpd.mpdur)
                if got not in want:
                    acc.bad(key, "announced end %s and duration %s, expected one of %s" % (got[0], got[1], sorted(want)),
                            path=path, now=t)
                if prev is not None and mpd.aet is not None and mpd.aet < prev:
                    acc.bad(key, "announced end shrank from %s to %s" % (prev, mpd.aet), path=path, now=t)
                prev = mpd.aet or prev
        # segments around the live edge and around the last one
        live = m.live_nr(now)
        inband = {}
        for n in {live, live + 1, m.last - 1, m.last, m.last + 1, m.last + 7}:
            if n < 0:
                continue
            for rid in ([r.id for r in asset.reps] if n in (m.last - 1, m.last) else [asset.reps[0].id]):
                rep = asset.rep(rid)
                p = "%s%s/%s/%d%s" % (o.prefix(), asset.name, rid, n, rep.ext)
                r = srv.get(p, t)
                k = "%s@%s" % (p, t)
                ok = m.available(n, now)
                if ok and final + 60 <= now:
                    if now >= final + 61:
                        ok = False
                    else:
                        ok = None                       # within the limiting second
                acc.trans("served" if ok else "refused")
                if ok is not None and (r.status == 200) != ok or r.status not in (200, 404):
                    acc.bad(k, "segment %d (last %d, AET %d) at %s answered %s %r" % (
                        n, m.last, final, t, r.status, r.body[:80]), path=p, now=t)
                if r.status == 200:
                    try:
                        s = iso.parse_segment(r.body, rep.trex)
                    except iso.IsoError as e:
                        acc.bad(k, "malformed: %s" % e, path=p, now=t)
                        continue
                    brands = s.brands or []
                    if n in (m.last - 1, m.last) and rid == asset.reps[0].id:        # low-latency delivery marks the same segment
                        c = srv.get("chunkdur_%d/%s" % (d, p), t)
                        acc.trans("chunked")
                        try:
                            cb = iso.parse_segment(c.body, rep.trex, max_moofs=9).brands if c.status == 200 else "status %s" % c.status
                        except iso.IsoError as e:
                            cb = str(e)
                        if cb != s.brands:
                            acc.bad(k + "#chunk", "brands %s in chunks, %s without" % (cb, s.brands), path="chunkdur_%d/%s" % (d, p), now=t)
                    if n in (m.last - 1, m.last) and rep.ctype in ("video", "audio"):                # and so does multiplexed delivery
                        other = next(x for x in asset.reps if x.ctype in ("video", "audio") and x.track_id != rep.track_id)
                        q = "%s%s/%s__%s/%d.m4s" % (o.prefix(), asset.name, rid, other.id, n)
                        c = srv.get(q, t)
                        acc.trans("multiplexed")
                        try:
                            cb = iso.parse_segment(c.body, {**rep.trex, **other.trex}).brands if c.status == 200 else "status %s" % c.status
                        except iso.IsoError as e:
                            cb = str(e)
                        if isinstance(cb, str) or (b"lmsg" in (cb or [])) != (n == m.last):
                            acc.bad(k + "#mux", "brands %s when multiplexed (last is %d)" % (cb, m.last), path=q, now=t)
                    if (b"lmsg" in brands) != (n == m.last):
                        acc.bad(k, "brands %s of segment %d (last is %d)" % (brands, n, m.last), path=p, now=t)
    acc.trace()
    acc.sample("%s: %d instants of the life cycle" % (path, len(instants)))


def main():
    jobs = []
    for a, asset in catalogue().items():
        n = len(option_sets(asset))
        step = 12
        for lo in range(0, n, step):
            jobs.append(("shard", (a, lo, lo + step)))
    return core.run_check(PID, __name__, jobs,
                          bounds="4 assets x 2-3 starts x 6 duration lists x update periods x start number/offset; every second around each "
                                 "switch and end, 8-step grid elsewhere; 6 segment numbers per instant",
                          assumptions=["session durations are whole numbers of segments", "the switch to the next duration may happen anywhere "
                                       "after the limit within its second"])
