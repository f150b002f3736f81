"""C12: modulo sessions, every second of the hour."""
from fractions import Fraction as F
from .. import assets, env, model, core, iso, dash
from .c05 import get_mpd

PID = "C12"
MS = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


def catalogue():
    return {"sq": assets.make_simple("sq", 2, 4), "odd": assets.make_simple("odd", 3, 5, first=5, tsbd=25),
            "six": assets.make_simple("six", 6, 3, first=0)}


def schedule(M, now):
    """(AST, duration, AET, update period) of the session shown at second `now` (documented schedule)."""
    T = 60 * M
    start, rest = now // T * T, now % T
    tenth = F(rest * 10, T)
    if tenth >= 9:
        start, part = start + T, 2
    elif tenth < 1:
        part = 2
    elif tenth < 3:
        part = 4
    elif tenth < 5:
        part = 6
    else:
        part = 8
    dur = F(T * part, 10)
    mup = F(T, 20)
    return start, dur, start + dur + mup, mup


def shard(acc, aname, M, base, lo, hi, step, snr, frac):
    asset = catalogue()[aname]
    d = asset.dur
    rep = asset.reps[0]
    with env.Server([asset]) as srv:
        pref = "modulo_%d/%s%s/" % (M, "" if snr is None else "snr_%d/" % snr, aname)
        first = 1 if snr == -1 else (snr or 0)
        for sec in range(base + lo, base + hi, step):
            now = sec + frac
            ast, dur, aet, mup = schedule(M, sec)
            acc.state()
            path = pref + "Manifest.mpd"
            key = "%s@%s" % (path, now)
            mpd = get_mpd(acc, srv, path, now)
            acc.trans("mpd")
            if mpd is not None:
                got = (mpd.ast, mpd.mpdur, mpd.aet, mpd.mup)
                if got != (ast, dur, aet, mup) or mpd.type != "dynamic":
                    acc.bad(key, "session (AST, duration, AET, update period) %s, schedule says %s" % (
                        tuple(float(x) if x is not None else None for x in got), (ast, float(dur), float(aet), float(mup))), path=path, now=now)
                a = mpd.periods[0].sets[0]
                if mpd.periods[0].start != 0 or a.snr != first or (snr == -1) == a.has_snr or a.pto:
                    acc.bad(key, "startNumber %s (%s), pto %s" % (a.snr, a.has_snr, a.pto), path=path, now=now)
            nseg = int(dur // d)
            last = first + nseg - 1
            live = first + (sec - ast) // d - 1
            for n in {first, live, live + 1, last - 1, last, last + 1, last + 9, live - 3}:
                if n < 0:
                    continue
                p = "%s%s/%d.m4s" % (pref, rep.id, n)
                end = ast + (n - first + 1) * d
                want = first <= n <= last and end <= now <= end + d + asset.tsbd
                if want and now > aet:
                    continue
                r = srv.get(p, now)
                acc.trans("served" if want else "refused")
                k = "%s@%s" % (p, now)
                if (r.status == 200) != want:
                    acc.bad(k, "segment %d (session %d, %d..%d) answered %s %r" % (n, ast, first, last, r.status, r.body[:80]), path=p, now=now)
                elif want:
                    try:
                        s = iso.parse_segment(r.body, rep.trex)
                    except iso.IsoError as e:
                        acc.bad(k, "malformed %s" % e)
                        continue
                    t = s.tracks[0]
                    media = (n - first) * d
                    loops, k2 = divmod(media, asset.loop)
                    exp, samples = rep.segs[k2 // d][0] + loops * asset.loop * rep.timescale, rep.segs[k2 // d][1]
                    if t.seqno != n or t.tfdt != exp or not model.same_samples(t.samples, samples):
                        acc.bad(k, "content: number %d, decode time %d (expected %d)" % (t.seqno, t.tfdt, exp), path=p, now=now)
                    if (b"lmsg" in s.brands) != (n == last):
                        acc.bad(k, "brands %s, last segment is %d" % (s.brands, last), path=p, now=now)
        acc.trace()
        acc.sample("%s: seconds %d..%d step %d" % (pref, base + lo, base + hi, step))


def main():
    jobs = []
    H = 3600
    for M in MS:
        base = 416666 * H                                   # 1 499 997 600
        for lo in range(0, H, 600):
            jobs.append(("shard", ("sq", M, base, lo, lo + 600, 1, None, 0)))
        jobs.append(("shard", ("odd", M, base + 25 * H, 0, H, 7 if not core.thorough() else 1, 5, 0.5)))
        jobs.append(("shard", ("six", M, 0, 0, H, 11 if not core.thorough() else 1, -1, 0)))
        jobs.append(("shard", ("odd", M, 1193046 * H, 0, H, 13 if not core.thorough() else 1, None, 0.984375)))
    return core.run_check(PID, __name__, jobs,
                          bounds="every M dividing 60 x every second of one hour (three further hours enumerated on a coarser grid with other assets and "
                                 "start numbers): MPD and 8 segment numbers",
                          assumptions=["segment duration divides the announced durations"])
