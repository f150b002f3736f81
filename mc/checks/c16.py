"""C16: emission instants of low-latency chunks under the virtual clock."""
from fractions import Fraction as F
from .. import assets, env, model, core, dash, iso
from .c15 import bounds

PID = "C16"
MARGIN = F(1, 10)       # chunks are sent 100 ms before the formal time
EPS = 2e-3              # float arithmetic on epoch seconds


def catalogue():
    return {"two": assets.make_simple("two", 2, 3), "sq": assets.make_sq(), "six": assets.Asset(
        "six", 6, 2, 3, [assets.Rep("V1", "video", 90000, 1, assets.even_segs("v", 2, 540000, 12)),
                         assets.Rep("A1", "audio", 48000, 2, assets.framed_segs("a", 2, 6, 48000, 24000))])}


def options(asset):
    d = asset.dur
    out = [model.Opts(ato=d), model.Opts(snr=5, ato=d), model.Opts(snr=-1, ato=d)]
    for start in (600, 601, 1600000003):
        for kw in (dict(), dict(snr=7), dict(snr=-1), dict(timeoffset=0), dict(timeoffset=3 * d), dict(timeoffset=60, snr=4), dict(durs=(6 * d,))):
            out.append(model.Opts(start=start, ato=d, **kw))
    out += [model.Opts(start=600, ato=d - 1), model.Opts(start=600, ato=0.5), model.Opts(start=600), model.Opts(ato=1.25, snr=2),
            model.Opts(start=600, ato=d + 1.5), model.Opts(start=600, ato="inf"), model.Opts(ato="inf", snr=3)]
    return out


def chunk_durs(rep, d):
    longest = max(F(s.dur, rep.timescale) for _, ss in rep.segs for s in ss)
    return [x for x in (F(1, 4), F(1, 2), F(3, 4), F(1), F(5, 4), F(3, 2), F(2), F(7, 2), F(d), F(d) + F(1, 2)) if x >= longest]


def advertised(acc, srv, path, now):
    r = srv.get(path, now)
    acc.trans("mpd")
    if r.status != 200:
        acc.bad("%s@%s" % (path, now), "MPD answered %s %r" % (r.status, r.body[:90]), path=path, now=now)
        return None
    return dash.Mpd(r.body, path)


def walk(acc, srv, asset, rep, o, D):
    m = model.Model(asset, o)
    d = asset.dur
    pre = "%schunkdur_%g/%s" % (o.prefix(), float(D), asset.name)
    n0 = m.first + (0 if o.start is not None else 1600000000 // d)
    numbers = [n0, n0 + 1, n0 + asset.n] if o.start is not None else [n0, n0 + 1, m.first]
    if m.last is not None:
        numbers = [n for n in numbers if n <= m.last]
    mpd = advertised(acc, srv, pre + "/Manifest.mpd", float(m.ast + 20 * d))
    if mpd is not None:
        for ads in mpd.periods[0].sets:
            got = ads.total_ato()
            want = None if m.inf else m.ato
            if got != want or ads.st_atc != "false":
                acc.bad(pre + "#ato", "advertised availabilityTimeOffset %s, availabilityTimeComplete %s; segments are available %s early" % (
                    got, ads.st_atc, want), path=pre)
    for n in numbers:
        begin = F(m.ast + (n - m.first) * d)
        end = begin + d
        k = m.content(n)[1]
        cnt = len(bounds(rep.segs[k][1], D * rep.timescale))
        due = [begin + min((i + 1) * D, F(d)) - MARGIN for i in range(cnt)]
        arrivals = {begin + F(j, 8) for j in range(0, 8 * d + 9)} if D >= 1 or core.thorough() else set()
        for x in due:
            arrivals |= {x, x - F(1, 64), x + F(1, 64), x + MARGIN}
        arrivals |= {end, end + 1, begin, begin + F(1, 64), end + d}
        if m.inf:
            arrivals |= {begin - F(7, 2), begin - 100}
        first = m.avail_from(n) if not m.inf else F(m.ast)
        arrivals |= {first, first - F(1, 64), first + F(1, 64)}
        path = "%s/%s/%d.m4s" % (pre, rep.id, n)
        for a in sorted(x for x in arrivals if x >= 0):
            acc.state()
            g = srv.get(path, float(a))
            key = "%s@%s" % (path, float(a))
            ok = m.available(n, a)
            if not ok:
                acc.trans("refused")
                if g.status != 404 or g.chunks and g.chunks[-1][0] != float(a):
                    acc.bad(key, "not available yet, but answered %s" % g.status, path=path, now=float(a))
                continue
            acc.trans("sent")
            if g.status != 200:
                acc.bad(key, "available, but answered %s %r" % (g.status, g.body[:90]), path=path, now=float(a))
                continue
            sent = [t for t, part in g.chunks if part]
            if len(sent) != cnt:
                acc.bad(key, "%d chunks instead of %d" % (len(sent), cnt), path=path, now=float(a))
                continue
            for i, (t, x) in enumerate(zip(sent, due)):
                want = max(a, x)
                if abs(F(t) - want) > EPS:
                    acc.bad(key, "chunk %d of %d sent %.3f s after the start of segment %d, should be %.3f (request at %.3f)" % (
                        i + 1, cnt, float(F(t) - begin), n, float(want - begin), float(a - begin)), path=path, now=float(a))
                    break


def shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    with env.Server([asset]) as srv:
        for o in options(asset)[lo:hi]:
            for rid in ([r.id for r in asset.reps][:2]):
                rep = asset.rep(rid)
                for D in chunk_durs(rep, asset.dur):
                    walk(acc, srv, asset, rep, o, D)
            acc.trace()
            acc.sample("%s%s: emission instants for all arrival instants and chunk durations" % (o.prefix(), aname))


def main():
    jobs = []
    for a, asset in catalogue().items():
        for lo in range(0, len(options(asset)), 2):
            jobs.append(("shard", (a, lo, lo + 2)))
    return core.run_check(PID, __name__, jobs,
                          bounds="3 assets x 31 option sets (start/snr/timeoffset/dur/ato) x up to 10 chunk durations x 3 segments x every arrival instant on a grid "
                                 "and around each due instant",
                          assumptions=["sleep() takes exactly the requested time", "2 ms tolerance for float arithmetic"])
