"""C31: tfdt_32 sessions (restart every 3 hours, 32-bit decode times)."""
from fractions import Fraction as F
from .. import assets, env, core, iso, model
from .c05 import get_mpd

PID = "C31"
H3 = 10800
EX = ["", "snr_1/", "snr_-1/", "snr_77/", "tsbd_0/", "tsbd_7/", "ato_1/", "sidx_1/", "tsbd_20000/", "init_30/", "utc_direct/snr_3/"]


def catalogue():
    out = {"sq": assets.make_sq(), "odd": assets.make_odd(), "nine": assets.make_nine(), "cut": assets.make_cut(),
           "sev": assets.make_simple("sev", 2, 7, first=3, vts=90000, ats=44100),
           "top": assets.make_simple("top", 4, 5, first=0, vts=397680, ats=240000, tsbd=60)}
    for r in out["nine"].reps + out["sev"].reps[:1] + out["top"].reps:
        r.build["tfdt_version"] = 0
    return out


def base_nr(ex):
    for p in ex.split("/"):
        if p.startswith("snr_"):
            return 1 if p == "snr_-1" else int(p[4:])
    return 0


def opt(ex, key, default):
    for p in ex.split("/"):
        if p.startswith(key + "_"):
            return int(p.split("_")[1])
    return default


def fetch(acc, srv, asset, rep, pref, n, now, ast, first, want):
    p = "%s%s/%s/%d%s" % (pref, asset.name, rep.id, n, rep.ext)
    key = "%s@%s" % (p, float(now))
    r = srv.get(p, float(now))
    acc.trans("served" if want else "refused")
    if (r.status == 200) != want or r.status not in (200, 404):
        acc.bad(key, "segment %d (number %+d of the session from %d) answered %s %r" % (n, n - first, ast, r.status, r.body[:80]), path=p, now=float(now))
        return None
    if not want:
        return None
    try:
        s = iso.parse_segment(r.body, rep.trex)
    except iso.IsoError as e:
        acc.bad(key, "malformed: %s" % e, path=p, now=float(now))
        return None
    t = s.tracks[0]
    loops, rest = divmod((n - first) * asset.dur, asset.loop)
    start, samples = rep.segs[rest // asset.dur]
    exp = start + loops * asset.loop * rep.timescale
    if t.tfdt != exp or t.seqno != n or not model.same_samples(t.samples, samples):
        acc.bad(key, "decode time %d (expected %d), sequence number %d" % (t.tfdt, exp, t.seqno), path=p, now=float(now))
    if t.tfdt >= 1 << 32 or (rep.build.get("tfdt_version", 0) == 0 and t.tfdt_version != 0):
        acc.bad(key, "decode time %d in version %d" % (t.tfdt, t.tfdt_version), path=p, now=float(now))
    if b"lmsg" in (s.brands or []):
        acc.bad(key, "last-segment brand", path=p, now=float(now))
    return t


def boundary(acc, aname, ex, ks):
    """Instants around each 3 h boundary: MPD values, window, restart."""
    asset = catalogue()[aname]
    d = asset.dur
    first = base_nr(ex)
    ato = opt(ex, "ato", 0)
    tsbd = opt(ex, "tsbd", asset.tsbd)
    pref = "tfdt_32/" + ex
    with env.Server([asset]) as srv:
        for k in ks:
            for off in sorted({F(x) for x in (0, F(1, 64), F(63, 64), 1, d - 1, d - F(1, 64), d, d + F(1, 64), 2 * d, 3 * d, asset.loop, asset.loop + d, 97, 3599,
                                                        3600, 5399, 5400, 7201, H3 - d - 1, H3 - d, H3 - d + 1, H3 - 1, H3 - F(1, 64)) if x < H3}):
                ast = k * H3
                now = ast + off
                acc.state()
                path = pref + asset.name + "/Manifest.mpd"
                key = "%s@%s" % (path, float(now))
                mpd = get_mpd(acc, srv, path, float(now))
                acc.trans("mpd")
                if mpd is not None:
                    got = (mpd.type, mpd.ast, mpd.aet, mpd.mpdur)
                    if got != ("dynamic", ast, ast + H3, H3) or mpd.mup is None or mpd.mup > H3 or mpd.periods[0].start != 0:
                        acc.bad(key, "type, AST, AET, duration %s, update period %s; the session starts at %d" % (got, mpd.mup, ast), path=path, now=float(now))
                    for a in mpd.periods[0].sets:
                        if a.snr != first or a.pto or a.has_snr == ("snr_-1" in ex):
                            acc.bad(key, "startNumber %s, presentation time offset %s" % (a.snr, a.pto), path=path, now=float(now))
                live = first + int(off // d) - 1
                for n in {live - 2, live - 1, live, live + 1, live + 2, first, first - 1, first + H3 // d, live + H3 // d, (ast + int(off)) // d,
                          live - int(tsbd // d) - 2, live - int(tsbd // d) - 1}:
                    if n < 0:
                        continue
                    end = ast + (n - first + 1) * d
                    want = n >= first and end - ato <= now <= end + d + tsbd
                    if n - first >= H3 // d:
                        if want:          # only with ato; beyond the duration
                            continue
                    for rep in (asset.reps if abs(n - live) < 2 else asset.reps[:1]):
                        fetch(acc, srv, asset, rep, pref, n, now, ast, first, want)
                r = srv.get("%s%s/%s/init.mp4" % (pref, asset.name, asset.reps[0].id), float(now))
                acc.trans("init")
                if r.status != 200:
                    acc.bad(key + "#init", "init segment answered %s" % r.status)
        acc.trace()
        acc.sample("%s%s around the boundaries %s x 3 h" % (pref, aname, ks))


def every_second(acc, aname, k, lo, hi, step):
    """The announced session depends on the clock only."""
    asset = catalogue()[aname]
    with env.Server([asset]) as srv:
        path = "tfdt_32/%s/Manifest.mpd" % asset.name
        for s in range(lo, hi, step):
            now = k * H3 + s
            acc.state()
            acc.trans("mpd")
            mpd = get_mpd(acc, srv, path, now)
            if mpd is not None and (mpd.ast, mpd.aet, mpd.mpdur) != (k * H3 + s // H3 * H3, k * H3 + s // H3 * H3 + H3, H3):
                acc.bad("%s@%s" % (path, now), "AST %s AET %s duration %s" % (mpd.ast, mpd.aet, mpd.mpdur), path=path, now=now)
        acc.trace()


def walk(acc, aname, ri, ex, k, part, parts):
    """Every segment of a session, fetched when it is complete."""
    asset = catalogue()[aname]
    rep = asset.reps[ri]
    d = asset.dur
    first = base_nr(ex)
    total = H3 // d - 1
    lo, hi = total * part // parts, total * (part + 1) // parts
    prev = None
    with env.Server([asset]) as srv:
        for i in range(lo, hi):
            acc.state()
            t = fetch(acc, srv, asset, rep, "tfdt_32/" + ex, first + i, k * H3 + (i + 1) * d + F(1, 2), k * H3, first, True)
            if t is None:
                prev = None
                continue
            if prev is not None and t.tfdt != prev:
                acc.bad("%s/%s/%d walk" % (aname, rep.id, first + i), "decode time %d, previous segment ended at %d" % (t.tfdt, prev))
            prev = t.tfdt + sum(x.dur for x in t.samples)
        acc.trace()
        acc.sample("%s/%s: segments %d..%d of a session" % (aname, rep.id, lo, hi))


def main():
    jobs = []
    ks = [0, 1, 2, 37037, 138888, 138889, 148148, 397682]
    for a in catalogue():
        for ex in EX:
            jobs.append(("boundary", (a, ex, ks)))
        for k in (138888, 3):
            jobs.append(("every_second", (a, k, 0, 2 * H3 + 10, 17 if not core.thorough() else 1)))
        for ri in range(2):
            for part in range(4):
                jobs.append(("walk", (a, ri, ["", "snr_5/"][ri], 138888, part, 4)))
    return core.run_check(PID, __name__, jobs,
                          bounds="5 assets x 11 option sets x 8 sessions (epoch to beyond 2106) x 23 instants; every segment of whole 3 h sessions of 2 "
                                 "representations per asset",
                          assumptions=["segment durations that divide 3 h", "timescales up to 397680 (10800 s below 2^32 ticks)", "no timeoffset_"])
