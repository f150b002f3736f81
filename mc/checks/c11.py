"""C11: start-over sessions (start/stop, absolute and relative, with time offset)."""
import re
from fractions import Fraction as F
from .. import assets, env, model, core, iso, dash
from .c05 import get_mpd, HOST

PID = "C11"


def catalogue():
    return {"sq": assets.make_sq(), "odd": assets.make_odd(), "stp": assets.make_stp(), "cut": assets.make_cut(),
            "six": assets.make_simple("six", 6, 3, first=2, tsbd=20, mpd_kw=dict(base_url=True))}


def sessions(asset):
    d = asset.dur
    out = []
    for st in (600 * d, 1500000000 // d * d, 1500000000 // d * d + 1):
        for length in (d, 5 * d, 7 * d + 1, 3 * d - 1):
            for tmo in (None, 0, st // d * d - 7 * d, st // d * d, 5 * d):
                for snr in (None, 3, -1):
                    for ato in (None, 1, "inf"):
                        if ato is not None and (snr or length == d):
                            continue
                        for tsbd in (None, 2):
                            if tsbd is not None and (ato or snr):
                                continue
                            out.append(model.Opts(start=st, stop=st + length, timeoffset=tmo, snr=snr, ato=ato, tsbd=tsbd))
    return out


def walk(acc, srv, asset, o, url=None, instants=None, rep_stride=1):
    """Explore the session at all instants, fetching the MPD at `url` (default: from the options)."""
    d = asset.dur
    m = model.Model(asset, o)
    path = url or "%s%s/Manifest.mpd" % (o.prefix(), asset.name)
    if instants is None:
        instants = [F(m.ast + x) for x in (-1, 0)] + [F(m.stop + x) for x in (-1, 0, F(1, 2), 1, 2, d + 400, 100000)]
        for i in range((m.stop - m.ast) // d + 2):
            instants += [F(m.ast + i * d), F(m.ast + i * d) + F(1, 2)]
    for now in sorted(set(instants)):
        t = float(now)
        acc.state()
        key = "%s@%s" % (path, t)
        mpd = get_mpd(acc, srv, path, t)
        if mpd is None:
            continue
        acc.trans("mpd")
        probs = []
        types = {"dynamic"} if now <= m.stop else {"static"} if now >= m.stop + 1 else {"dynamic", "static"}
        if mpd.type not in types:
            probs.append("MPD type %s" % mpd.type)
        if mpd.type == "static" and mpd.mup is not None:
            probs.append("static MPD with minimumUpdatePeriod")
        if mpd.ast != m.ast:
            probs.append("AST %s" % mpd.ast)
        if mpd.mpdur != m.stop - m.ast:
            probs.append("duration %s instead of %s" % (mpd.mpdur, m.stop - m.ast))
        if mpd.aet is not None and mpd.aet != m.stop:
            probs.append("AET %s" % mpd.aet)
        if mpd.tsbd is not None and mpd.tsbd < min(now, F(m.stop)) - m.ast:
            probs.append("time-shift buffer %s does not reach the start" % mpd.tsbd)
        if len(mpd.periods) != 1 or mpd.periods[0].start != 0:
            probs.append("periods")
        for x in probs:
            acc.bad(key + "#" + x[:20], "%s at %s (session %d-%d)" % (x, t, m.ast, m.stop), path=path, now=t)
        if probs:
            continue
        base = mpd.base() if mpd.baseurls else (mpd.locations[0] if mpd.locations else mpd.url)
        for ads in mpd.periods[0].sets[::-1]:
            rep = asset.by_id[ads.reps[0]]
            if rep.ext != ".m4s":
                continue
            count = (m.stop - m.ast) // d
            ato = mpd.ato()
            if mpd.type == "static" or ato is None:
                hi = count + 3
                if mpd.type != "static" and now < mpd.ast:
                    hi = -1
            else:
                hi = ads.index_at(now - mpd.ast + ato)
            segs = ads.number_segs(ads.reps[0], 0, hi, base)
            want = [n for n in range(m.first, m.first + count) if (now >= m.ast if m.inf else now >= m.avail_from(n))]
            if [s.number for s in segs] != want:
                acc.bad(key + "#" + ads.reps[0], "MPD at %s leads to segments %s, the programme so far is %s" % (
                    t, [s.number for s in segs], want), path=path, now=t)
                continue
            for s in segs:
                p = s.url[len(HOST):]
                r = srv.get(p, t, prefix="")
                acc.trans("segment")
                k = "%s@%s" % (p, t)
                if r.status != 200:
                    acc.bad(k, "segment of the programme answered %s %r" % (r.status, r.body[:80]), path=p, now=t)
                    continue
                try:
                    tr = iso.parse_segment(r.body, rep.trex).tracks[0]
                except iso.IsoError as e:
                    acc.bad(k, "malformed: %s" % e, path=p, now=t)
                    continue
                tfdt, samples = m.expect(rep, s.number)
                if tr.tfdt != tfdt or tr.seqno != s.number:
                    acc.bad(k, "decode time %d (expected %d), sequence number %d" % (tr.tfdt, tfdt, tr.seqno), path=p, now=t)
                if rep.ctype != "audio" and not s.t - s.pto == (s.number - m.first) * d:
                    acc.bad(k, "presentation time %s" % (s.t - s.pto), path=p, now=t)
            for n in (m.first - 1, m.first + count, (segs[-1].number + 1) if segs else m.first):
                if n < 0 or n in want:
                    continue
                p = "%s%s" % (base[len(HOST):base.rindex("/") + 1], ads.fill(ads.media, ads.reps[0], n))
                r = srv.get(p, t, prefix="")
                acc.trans("outside")
                if r.status != 404:
                    acc.bad("%s@%s" % (p, t), "segment %d outside the programme (%s) answered %s" % (n, want, r.status), path=p, now=t)
            break
    acc.trace()


def shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    with env.Server([asset]) as srv:
        for o in sessions(asset)[lo:hi]:
            walk(acc, srv, asset, o)
            acc.sample("%s%s: MPD and all segments of the programme at every segment boundary" % (o.prefix(), aname))


def strip(body, drop_type=False):
    """MPD text without BaseURL/Location."""
    txt = re.sub(r"<(BaseURL|Location)[^>]*>[^<]*</\1>\s*", "", body.decode())
    return txt


def rel_sessions(asset):
    d = asset.dur
    out = []
    for a in (-10 * d, -7 * d - 1, -1, 0, 2 * d + 1):
        for b in (-3 * d, -2, 1, 4 * d, 5 * d + 1):
            if b <= a:
                continue
            for order in (0, 1):
                for extra in ("", "timeoffset_%d" % (5 * d), "snr_3", "timeoffset_%d/snr_3" % (3 * d)):
                    p = ["startrel_%d" % a, "stoprel_%d" % b]
                    if order:
                        p.reverse()
                        if extra:
                            continue
                    out.append((a, b, "/".join(p + ([extra] if extra else [])), extra))
    for a, b in ((-10 * d, 4 * d), (-1, 1), (0, 5 * d + 1), (-7 * d - 1, -2)):      # one of them absolute
        for extra in ("", "timeoffset_%d/snr_3" % (3 * d)):
            out.append((a, b, "/".join(["start_{%d}" % a, "stoprel_%d" % b] + ([extra] if extra else [])), extra))
            out.append((a, b, "/".join(["startrel_%d" % a, "stop_{%d}" % b] + ([extra] if extra else [])), extra))
    out += [(a, None, "startrel_%d" % a, "") for a in (-10 * d, -1, 0, 5)]
    out += [(a, None, "startrel_%d/snr_3" % a, "snr_3") for a in (-10 * d, -3)]
    return out


def rel_shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    d = asset.dur
    with env.Server([asset]) as srv:
        for a, b, pref, extra in rel_sessions(asset)[lo:hi]:
            for now in (1500000000 // d * d, 1500000000 // d * d + d - 1, 1500000000.5, 1600000001.25):
                ni = int(now)
                for kw in ({}, dict(https=True, host="x.example.org:8080")):
                    path = "%s/%s/Manifest.mpd" % (re.sub(r"\{([-\d]+)\}", lambda x: str(ni + int(x.group(1))), pref), aname)
                    key = "%s@%s" % (path, now)
                    acc.state()
                    r = srv.get(path, now, **kw)
                    acc.trans("relative")
                    if r.status != 200:
                        acc.bad(key, "answered %s %r" % (r.status, r.body[:100]), path=path, now=now)
                        continue
                    pre = ("https://x.example.org:8080" if kw else HOST) + "/livesim/"
                    try:
                        mpd = dash.Mpd(r.body, pre + path)
                    except dash.MpdError as e:
                        acc.bad(key, "bad MPD %s" % e, path=path, now=now)
                        continue
                    ast = (ni + a) // d * d
                    stop = None if b is None else -((-(ni + b)) // d) * d
                    if len(mpd.locations) != 1 or mpd.baseurls:
                        acc.bad(key, "Location %s, %d BaseURL" % (mpd.locations, len(mpd.baseurls)), path=path, now=now)
                        continue
                    loc = mpd.locations[0]
                    mm = re.match(re.escape(pre) + "(.*)$", loc)
                    got = (mm.group(1) if mm else "").split("/")
                    want = path.split("/")
                    ok = mm is not None and len(got) == len(want)
                    if ok:
                        for g, w in zip(got, want):
                            if w.startswith("startrel_"):
                                ok = ok and re.match(r"start_\d+$", g) and int(g[6:]) // d * d == ast
                            elif w.startswith("stoprel_"):
                                ok = ok and re.match(r"stop_\d+$", g) and -((-int(g[5:])) // d) * d == stop
                            else:
                                ok = ok and g == w
                    if not ok:
                        acc.bad(key, "Location %s for AST %d, stop %s" % (loc, ast, stop), path=path, now=now)
                        continue
                    r2 = srv.get(mm.group(1), now, **kw)
                    acc.trans("location")
                    if r2.status != 200 or strip(r2.body) != strip(r.body):
                        acc.bad(key, "MPD at Location %s differs: %r / %r" % (loc, strip(r2.body)[:400], strip(r.body)[:400]), path=path, now=now)
                    if mpd.ast != ast:
                        acc.bad(key, "AST %s instead of %s" % (mpd.ast, ast), path=path, now=now)
                    if kw:
                        continue
                    opts = dict(p.split("_") for p in extra.split("/") if p)
                    o = model.Opts(start=ast, stop=stop, timeoffset=int(opts["timeoffset"]) if "timeoffset" in opts else None,
                                   snr=int(opts["snr"]) if "snr" in opts else None)
                    later = [F(now), F(int(now) + 1), F(now) + d] + ([] if b is None else [F(stop), F(stop) + 1, F(stop + 5000)])
                    if stop is not None:
                        walk(acc, srv, asset, o, url=mm.group(1), instants=[x for x in later if x >= now])
                    else:
                        m = model.Model(asset, o)
                        for x in later:
                            mp = get_mpd(acc, srv, mm.group(1), float(x))
                            if mp is not None and (mp.ast != ast or mp.periods[0].sets[0].snr != m.first):
                                acc.bad("%s@%s" % (mm.group(1), x), "session changed: AST %s" % mp.ast)
                            n = m.live_nr(x)
                            for nn, exp in ((n, n >= m.first), (n + 1, False)):
                                p = "%s/%s/%d.m4s" % (mm.group(1).rsplit("/", 1)[0], asset.reps[0].id, nn)
                                rr = srv.get(p, float(x))
                                acc.trans("segment")
                                if (rr.status == 200) != exp:
                                    acc.bad("%s@%s" % (p, x), "answered %s" % rr.status, path=p, now=float(x))
            acc.sample("%s/%s: Location followed at all later instants" % (pref, aname))


def main():
    jobs = []
    for a, asset in catalogue().items():
        n = len(sessions(asset))
        for lo in range(0, n, 10):
            jobs.append(("shard", (a, lo, lo + 10)))
        n = len(rel_sessions(asset))
        for lo in range(0, n, 10):
            jobs.append(("rel_shard", (a, lo, lo + 10)))
    return core.run_check(PID, __name__, jobs,
                          bounds="4 assets x starts x programme lengths (1-8 segments, unaligned) x timeoffset x startNumber x ato/tsbd; MPD and all "
                                 "segments at every segment boundary; relative start/stop pairs x 4 instants x later instants",
                          assumptions=["relative segment addresses resolve against Location when there is one (as dash.js does)"])
