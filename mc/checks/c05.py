"""C05: what the MPD advertises is what the server delivers ($Number$ addressing, single Period)."""
from fractions import Fraction as F
from .. import assets, env, model, core, iso, dash, common

PID = "C05"
HOST = "http://h.example.com"


def catalogue():
    return {"sq": assets.make_sq(), "odd": assets.make_odd(), "stp": assets.make_stp(), "cut": assets.make_cut(),
            "six": assets.make_simple("six", 6, 3, first=2, tsbd=20, mpd_kw=dict(tmpl_ts=1000, period_attrs=' duration="PT18S" start="PT0S"'))}


def option_sets(asset):
    d = asset.dur
    out = []
    extras = [(), ("utc_direct-head",), ("spd_8",), ("scte35_2",), ("sidx_1",), ("peroff_0",), ("periods_0",), ("tfdt_32",)]
    for st, tmo in [(None, None), (600 * d, None), (1500000000 // d * d + 1, None), (600 * d, 0), (1500000000 // d * d, 0),
                    (1500000000 // d * d + 1, 1500000000 // d * d - 7 * d), (600 * d, 3 * d + 1)]:
        for snr in (None, 1, 7, -1):
            for ato in (None, 0.5, d, "inf"):
                for tsbd in (None, 0, 2 * d + 1):
                    out.append(model.Opts(start=st, timeoffset=tmo, snr=snr, ato=ato, tsbd=tsbd))
        for ato in (61, 90.5, 3700):
            out.append(model.Opts(start=st, timeoffset=tmo, ato=ato))
        for ato in (0.25, 0.37, 1.66, 0.04):
            for snr, tsbd in ((None, 0), (3, None)):
                out.append(model.Opts(start=st, timeoffset=tmo, snr=snr, ato=ato, tsbd=tsbd))
        for ex in extras[1:]:
            if ex == ("tfdt_32",) and st is not None or ex == ("peroff_0",) and "tmpl_ts" in asset.mpd_kw:
                continue        # the timescale of a Period-level offset is open to interpretation
            for snr in (None, 3, -1):
                out.append(model.Opts(start=st, timeoffset=tmo, snr=snr, extra=ex))
    return out


def check_period(acc, srv, asset, o, mpd, period, now, base, full, key0, few=False, model_=None):
    """Every advertised segment of the Period is fetchable and carries its presentation time."""
    d = asset.dur
    rel_now = F(now) - mpd.ast - period.start
    inf = mpd.ato() is None
    for ads in period.sets:
        if ads.duration is None:
            acc.bad(key0 + "#tl", "unexpected SegmentTimeline")
            continue
        for rid in (ads.reps if full else ads.reps[:1]):
            rep = asset.by_id.get(rid)
            if inf:
                hi = ads.index_at(rel_now) + 3
                lo = max(0, ads.index_at(rel_now) - 2)
                segs = ads.number_segs(rid, lo, hi, base) if rel_now >= 0 else []
                nxt = []
            else:
                segs = ads.available(rid, F(now), base=base)
                hi = ads.index_at(rel_now + ads.total_ato())
                nxt = [s for s in ads.number_segs(rid, max(hi + 1, 0), hi + 1, base)]
            if not inf and model_ is not None and model_.tsbd >= d and rel_now >= 0 and period is mpd.periods[-1]:
                live = model_.first + int((F(now) - model_.ast + min(ads.total_ato(), model_.ato)) // d) - 1
                if live >= ads.snr and (not segs or segs[-1].number != live):
                    acc.bad(key0 + "#edge@%s" % now, "newest segment the MPD leads to is %s, newest complete segment is %d" % (
                        segs[-1].number if segs else None, live), path=key0, now=now)
            pick = segs if len(segs) <= 8 else segs[:3] + segs[len(segs) // 2:len(segs) // 2 + 1] + segs[-4:]
            if few and len(segs) > 3:
                pick = [segs[0], segs[len(segs) // 2], segs[-1]]
            for s in pick:
                path = s.url[len(HOST):]
                r = srv.get(path, now, prefix="")
                acc.trans("advertised")
                key = "%s@%s" % (path, now)
                if r.status != 200:
                    acc.bad(key, "advertised by the MPD at %s, answered %s %r" % (now, r.status, r.body[:90]),
                            path=path, now=now)
                    continue
                try:
                    tr = iso.parse_segment(r.body, rep.trex).tracks[0]
                except (iso.IsoError, IndexError) as e:
                    acc.bad(key, "malformed %s" % e, path=path, now=now)
                    continue
                # presentation times agree: MPD's notion vs the decode time in the segment
                mpd_media = F(s.t, s.timescale)
                diff = abs(F(tr.tfdt, rep.timescale) - mpd_media)
                tol = F(1, 10) if rep.ctype == "audio" else F(0)
                if (s.t - s.pto) % d == 0 and s.t % d:      # timeoffset not a multiple of the segment duration
                    tol += d
                if diff > tol:
                    acc.bad(key, "MPD says media time %s s, segment carries %s s" % (
                        float(mpd_media), tr.tfdt / rep.timescale), path=path, now=now)
                if tr.seqno != s.number:
                    acc.bad(key, "sequence number %d" % tr.seqno, path=path, now=now)
            for s in nxt:
                path = s.url[len(HOST):]
                if s.period.end is None or F(s.t + s.d - s.pto, s.timescale) + s.pstart <= s.period.end:
                    r = srv.get(path, now, prefix="")
                    acc.trans("not yet")
                    if r.status != 404:
                        acc.bad("%s@%s" % (path, now), "beyond the live edge of the MPD at %s, but served (%s)" % (
                            now, r.status), path=path, now=now)
            if ads.init and rep is not None and rep.ext == ".m4s" and not few:
                from urllib.parse import urljoin
                path = urljoin(base, ads.fill(ads.init, rid))[len(HOST):]
                if now >= mpd.ast:
                    r = srv.get(path, now, prefix="")
                    acc.trans("init")
                    if r.status != 200:
                        acc.bad("%s@%s" % (path, now), "advertised init segment answered %s" % r.status, path=path, now=now)


def get_mpd(acc, srv, path, now, **kw):
    r = srv.get(path, now, **kw)
    if r.status != 200:
        acc.bad("%s@%s" % (path, now), "MPD answered %s %r" % (r.status, r.body[:120]), path=path, now=now)
        return None
    try:
        return dash.Mpd(r.body, "http://h.example.com/livesim/" + path)
    except (dash.MpdError, KeyError, ValueError) as e:
        acc.bad("%s@%s" % (path, now), "MPD not interpretable: %r" % e, path=path, now=now)
        return None


def shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    d = asset.dur
    with env.Server([asset]) as srv:
        for o in option_sets(asset)[lo:hi]:
            m = model.Model(asset, o)
            anchors = [m.ast] if o.start is not None else [0, 1600000000 // asset.loop * asset.loop]
            for anchor in anchors:
                instants = [F(anchor) + x for x in (-2, F(-1, 4), 0, F(1, 2), d - 1, F(d) - F(1, 64), d, d + F(1, 4), 2 * d, 2 * d + F(5, 2),
                                                    asset.loop, asset.loop + d - F(1, 2), 100 * d + 1, 500 * d)]
                for now in (float(i) for i in instants if i >= 0):
                    path = "%s%s/Manifest.mpd" % (o.prefix(), aname)
                    acc.state()
                    mpd = get_mpd(acc, srv, path, now)
                    if mpd is None:
                        continue
                    if len(mpd.periods) != 1:
                        acc.bad(path, "%d periods" % len(mpd.periods))
                    try:
                        check_period(acc, srv, asset, o, mpd, mpd.periods[0], now, mpd.base(), False, path,
                                     model_=None if 'tfdt_32' in o.extra else m)
                    except dash.MpdError as e:
                        acc.bad("%s@%s" % (path, now), "MPD not interpretable: %r" % e, path=path, now=now)
            acc.trace()
            acc.sample("%s%s/Manifest.mpd at 14 instants: every advertised segment fetched" % (o.prefix(), aname))


def main():
    jobs = []
    for a, asset in catalogue().items():
        n = len(option_sets(asset))
        for lo in range(0, n, 20):
            jobs.append(("shard", (a, lo, lo + 20)))
    return core.run_check(PID, __name__, jobs,
                          bounds="4 assets x ~480 option sets (start/timeoffset/snr/ato/tsbd and extras) x 14-28 instants; up to 8 segments per "
                                 "representation plus the one beyond the live edge",
                          assumptions=["client model follows ISO/IEC 23009-1 availability rules"])
