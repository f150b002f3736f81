"""C30: thumbnails follow the timeline, numbering and availability window of the session's media segments."""
from fractions import Fraction as F
from .. import assets, env, model, core, dash
from .c05 import get_mpd, HOST

PID = "C30"


def catalogue():
    t = assets.make_thumb()
    n, dur, first = 4, 3, 0
    odd = assets.Asset("thodd", dur, n, first, [
        assets.Rep("V1", "video", 90000, 1, assets.even_segs("v", n, dur * 90000, 2)),
        assets.Rep("A1", "audio", 48000, 2, assets.even_segs("a", n, dur * 48000, 2)),
        assets.Rep("thumbs", "image", 1, 0, [(k * dur, [assets.Smp(b"\xff\xd8jpeg-%d" % k, dur, 0)]) for k in range(n)], ext=".jpg")], tsbd=14)
    return {"thumb": t, "thodd": odd}


def option_sets(asset, base):
    d = asset.dur
    out = []
    starts = [None] if base is None else [base, base + 1]
    for st in starts:
        for snr in (None, 1, 7, -1):
            for ato in (None, 0.5, d + 1.25, "inf"):
                for tsbd in (None, 0, 5):
                    out.append(model.Opts(start=st, snr=snr, ato=ato, tsbd=tsbd))
            if st is not None:
                for tmo in (0, st // d * d - 2 * d * asset.n - d, st - 1):
                    if tmo <= st // d * d:
                        out.append(model.Opts(start=st, snr=snr, timeoffset=tmo // d * d))
                out.append(model.Opts(start=st, snr=snr, durs=(5 * d,)))
                out.append(model.Opts(start=st, snr=snr, durs=(5 * d, 2 * d), tsbd=4 * d))
                out.append(model.Opts(start=st, snr=snr, stop=st + 6 * d + 1))
                out.append(model.Opts(start=st, snr=snr, stop=st + 6 * d, timeoffset=0, ato=0.5))
                out.append(model.Opts(start=st, snr=snr, extra=("chunkdur_1",), ato=d))
    return out


def shard(acc, aname, base, lo, hi):
    asset = catalogue()[aname]
    d = asset.dur
    rep = asset.rep("thumbs")
    eps = F(1, 64)
    with env.Server([asset]) as srv:
        for o in option_sets(asset, base)[lo:hi]:
            m = model.Model(asset, o)
            aet = None
            if o.durs:
                aet = (o.start + sum(o.durs)) // d * d
            anchors = [m.ast] if base is not None else [0, 1600000000 // d * d]
            if m.last is not None:
                anchors.append(m.ast + (m.last - m.first - 2) * d)
            for anchor in anchors:
                n0 = m.first + (anchor - m.ast) // d
                numbers = [n for n in range(n0 - 2, n0 + asset.n + 2) if n >= 0]
                instants = set()
                for n in numbers:
                    for edge in (m.avail_from(n), m.avail_until(n)):
                        instants |= {edge - eps, edge, edge + eps, edge + 1, edge - F(1, 2)}
                instants |= {F(m.ast) + e for e in (-1, 0, F(1, 2), d)}
                for now in sorted(i for i in instants if i >= 0):
                    if aet is not None and now >= aet + 60:
                        continue
                    acc.state()
                    for n in numbers:
                        want = m.available(n, now)
                        path = "%s%s/thumbs/%d.jpg" % (o.prefix(), aname, n)
                        r = srv.get(path, float(now))
                        acc.trans("served" if want else "refused")
                        key = "%s@%s" % (path, float(now))
                        if r.status != (200 if want else 404):
                            acc.bad(key, "thumbnail %d at %s: model says %s, server answered %s %r" % (
                                n, float(now), "available" if want else "not available", r.status, r.body[:80]), path=path, now=float(now))
                            continue
                        v = srv.get("%s%s/V1/%d.m4s" % (o.prefix(), aname, n), float(now))
                        if v.status != r.status:
                            acc.bad(key, "thumbnail answered %s, video segment %s" % (r.status, v.status), path=path, now=float(now))
                        if want:
                            _, k = m.content(n)
                            if r.body != rep.segs[k][1][0].data:
                                acc.bad(key, "image %r instead of stored image %d" % (r.body[:30], k), path=path, now=float(now))
                            if r.headers.get("content-type") != "image/jpeg":
                                acc.bad(key + "#type", "content type %s" % r.headers.get("content-type"), path=path, now=float(now))
                        elif b"Error" in r.body or not r.body.strip():
                            acc.bad(key, "refusal is not explained: %r" % r.body[:80], path=path, now=float(now))
                # the MPD leads to the same numbers
                for now in (float(F(anchor) + 3 * d + F(1, 2)),):
                    if "chunkdur_1" in o.extra or o.stop is not None or aet is not None or o.ato == "inf":
                        continue
                    mpd = get_mpd(acc, srv, "%s%s/Manifest.mpd" % (o.prefix(), aname), now)
                    if mpd is None:
                        continue
                    ads = [a for a in mpd.periods[0].sets if a.ctype == "image"]
                    if len(ads) != 1:
                        acc.bad("%s#mpd" % o.prefix(), "%d image AdaptationSets" % len(ads))
                        continue
                    for s in ads[0].available("thumbs", F(now), base=mpd.base())[-4:]:
                        r = srv.get(s.url[len(HOST):], now, prefix="")
                        acc.trans("advertised")
                        if r.status != 200:
                            acc.bad("%s@%s" % (s.url, now), "advertised thumbnail answered %s %r" % (r.status, r.body[:80]), path=s.url, now=now)
            acc.trace()
            acc.sample("%s%s/thumbs: availability window and content of the numbers around each boundary" % (o.prefix(), aname))


def main():
    jobs = []
    cat = catalogue()
    for a in cat:
        for base in (None, 600, 1500000000) if core.thorough() else (None, 1500000000):
            total = len(option_sets(cat[a], base))
            for lo in range(0, total, 8):
                jobs.append(("shard", (a, base, lo, lo + 8)))
    return core.run_check(PID, __name__, jobs,
                          bounds="2 assets x AST x startNumber x ato x tsbd x timeoffset x stop x dur; numbers over a loop at every window edge +-1/64 s",
                          assumptions=["virtual clock replaces time.time()"])
