"""C18: outage patterns of baseurl_ options, the end-of-timeline event, and the frozen SegmentTimeline."""
import re
from fractions import Fraction as F
from .. import assets, env, model, core, dash, iso

PID = "C18"
HOST = "http://h.example.com"
SCHEME = "urn:mpeg:dash:event:2012"


def up(kind, x, y, m):
    """Pattern state at second m of the minute. Second 0 belongs to the previous cycle's end and is always up."""
    cyc = x + y
    if m == 0:
        return True
    r = (m - 1) % cyc + 1          # 1..cyc
    return r <= x if kind == "u" else r > x


def event(kind, x, y, m):
    """u..d only: the last second before an outage."""
    return kind == "u" and y > 0 and m > 0 and m % (x + y) == x


def catalogue():
    return {"sq": assets.make_sq(tsbd=300), "one": assets.make_simple("one", 1, 4, tsbd=300)}


def opt(kind, x, y):
    return "baseurl_%s%d_%s%d" % (kind, x, "d" if kind == "u" else "u", y)


def pre_variants(o):
    """The pattern option in different positions and companies."""
    return [("%s", "", ""), ("start_1499999400/%s", "start_1499999400/", ""), ("%s/snr_3", "snr_3/", ""), ("tsbd_30/%s/start_1499999400/sidx_1",
            "tsbd_30/start_1499999400/sidx_1/", "")]


def strip_event(acc, key, body, now):
    """Response body without the inserted event message, and the number of such messages."""
    out, found = [], 0
    for nd in iso.parse(body):
        raw = body[nd.off:nd.off + nd.size]
        if nd.typ == b"emsg":
            e = iso.parse_emsg(nd)
            if e["scheme"] == SCHEME:
                found += 1
                if e["value"] != "1" or e["timescale"] == 0:
                    acc.bad(key + "#ev", "event value %r timescale %d" % (e["value"], e["timescale"]))
                try:
                    when = dash.timestamp(e["data"].decode())
                except ValueError as x:
                    acc.bad(key + "#ev", "event message is not a timestamp: %s" % x)
                else:
                    if when != int(now):
                        acc.bad(key + "#ev", "event message says %s, it is %s" % (when, int(now)))
                continue
        out.append(raw)
    return b"".join(out), found


def one(acc, srv, path, ref, kind, x, y, now):
    m = int(now) % 60
    acc.state()
    key = "%s@%s" % (path, now)
    r = srv.get(path, now)
    if ref.status != 200:
        acc.trans("unavailable")
        if r.status != 404:
            acc.bad(key, "not available without the option, but answered %s" % r.status, path=path, now=now)
        return
    if not up(kind, x, y, m):
        acc.trans("down")
        if r.status != 404:
            acc.bad(key, "server is down at second %d, but answered %s" % (m, r.status), path=path, now=now)
        return
    if r.status != 200:
        acc.bad(key, "server is up at second %d, but answered %s %r" % (m, r.status, r.body[:60]), path=path, now=now)
        return
    ev = event(kind, x, y, m)
    acc.trans("event" if ev else "up")
    body, cnt = strip_event(acc, key, r.body, now) if ev or b"emsg" in r.body else (r.body, 0)
    if cnt != (1 if ev else 0):
        acc.bad(key, "%d end-of-timeline events at second %d" % (cnt, m), path=path, now=now)
    if body != ref.body:
        acc.bad(key, "differs from the response without the option", path=path, now=now)
    if not ev and sorted(r.hlist) != sorted(ref.hlist):
        acc.bad(key, "headers differ from the response without the option", path=path, now=now)


def patterns(hi):
    for kind in "ud":
        for x in range(1, hi + 1):
            for y in range(1, hi + 1):
                yield kind, x, y
        for x in (1, 7, 29, 30, 31, 45, 58, 59, 60, 61, 90):
            for y in (1, 2, 29, 30, 31, 59, 60, 61):
                if max(x, y) > hi:
                    yield kind, x, y


def shard_patterns(acc, hi, part, parts):
    asset = catalogue()["sq"]
    base = 1500000000 // 60 * 60
    with env.Server([asset]) as srv:
        ref = {}
        for m in range(60):
            now = float(base + m)
            n = int(now) // asset.dur - 1
            ref[m] = (n, now, srv.get("sq/V1/%d.m4s" % n, now))
        for i, (kind, x, y) in enumerate(patterns(hi)):
            if i % parts != part:
                continue
            for m in range(60):
                n, now, r0 = ref[m]
                one(acc, srv, "%s/sq/V1/%d.m4s" % (opt(kind, x, y), n), r0, kind, x, y, now)
            acc.trace()
        acc.sample("every second of a minute for %d patterns" % (i + 1))


FEW = [("u", 10, 5), ("d", 10, 5), ("u", 40, 20), ("d", 20, 40), ("u", 7, 6), ("d", 13, 9), ("u", 59, 1), ("d", 1, 59), ("u", 1, 1), ("u", 90, 30)]


def shard_combo(acc, aname, rid, ext, chunk):
    """Other options, positions, numbers, fractional instants, several minutes."""
    asset = catalogue()[aname]
    d = asset.dur
    with env.Server([asset]) as srv:
        for kind, x, y in FEW:
            for form, plain, _ in pre_variants(None):
                for base in (1500000000 // 60 * 60, 1499999400, 1600000020):
                    secs = sorted({0, 1, 59, x % 60, (x + 1) % 60, (x + y) % 60, (x + y + 1) % 60, (2 * x + y) % 60, (2 * x + y + 1) % 60})
                    for m in secs:
                        for frac in (0.0, 0.5, 0.984375):
                            now = base + m + frac
                            ast = 1499999400 if "start" in plain else 0
                            snr = 3 if "snr" in plain else 0
                            live = snr + int(now - ast) // d - 1
                            for n in (live - 40 // d, live - 1, live, live + 1):
                                if n < 0:
                                    continue
                                tail = "%s/%s/%d.%s" % (aname, rid, n, ext)
                                ck = "chunkdur_1/" if chunk else ""
                                ref = srv.get(plain + ck + tail, now)
                                path = form % opt(kind, x, y) + "/" + ck + tail
                                one(acc, srv, path, ref, kind, x, y, now)
        acc.trace()
        acc.sample("%s/%s with other options" % (aname, rid))


MULTI = [(("u", 40, 20), ("d", 40, 20)), (("u", 10, 5), ("d", 10, 5)), (("d", 20, 10), ("u", 20, 10), ("u", 30, 30)), (("u", 40, 20), ("u", 40, 20))]
OTHER = ["", "start_1499999400/", "snr_7/", "start_1499999400/timeoffset_0/snr_4/tsbd_30/", "ato_1.5/", "segtimeline_1/", "segtimelinenr_1/", "periods_60/",
         "periods_60/segtimeline_1/", "scte35_2/utc_direct/"]


def canon_url(u):
    """(fixed head, multiset of options, content tail) of a BaseURL."""
    parts = u.split("/")
    opts = [p for p in parts[4:] if re.match(r"^[a-z0-9]+_", p)]
    return parts[:4], sorted(opts), [p for p in parts[4:] if p not in opts]


def shard_multi(acc, oi, mi):
    """Several BaseURLs: one per pattern, each leads to segments under exactly its pattern."""
    asset = catalogue()["sq"]
    other, pats = OTHER[oi], MULTI[mi]
    with env.Server([asset]) as srv:
        forms = ["/".join(opt(*p) for p in pats) + "/" + other]
        o = [p for p in other.split("/") if p]
        if o:                                       # patterns around and between the other options
            forms.append(opt(*pats[0]) + "/" + other + "/".join(opt(*p) for p in pats[1:]) + "/")
            forms.append(other + "/".join(opt(*p) for p in pats) + "/")
        for f in forms:
            for https in (False, True):
                for now in [1500000000 // 60 * 60 + s + 0.25 for s in ((0, 10, 11, 15, 16, 20, 21, 30, 31, 40, 41, 59) if not https else (5, 12, 40, 50))]:
                    path = f + "sq/Manifest.mpd"
                    key = "%s@%s" % (path, now)
                    r = srv.get(path, now, https=https)
                    ref = srv.get(other + "sq/Manifest.mpd", now, https=https)
                    acc.state()
                    if r.status != 200:
                        acc.bad(key, "MPD answered %s %r" % (r.status, r.body[:90]), path=path, now=now)
                        continue
                    mpd = dash.Mpd(r.body, path)
                    plain = dash.Mpd(ref.body, path)
                    if len(mpd.baseurls) != len(pats):
                        acc.bad(key, "%d BaseURLs for %d patterns" % (len(mpd.baseurls), len(pats)), path=path, now=now)
                        continue
                    head0, opts0, tail0 = canon_url(plain.base())
                    for i, p in enumerate(pats):
                        url = mpd.base(i)
                        head, opts, tail = canon_url(url)
                        if head != head0 or tail != tail0 or opts != sorted(opts0 + [opt(*p)]):
                            acc.bad(key + "#url%d" % i, "BaseURL %d is %s; without the option it is %s" % (i, url, plain.base()), path=path, now=now)
                        if mpd.ato(i) != plain.ato():
                            acc.bad(key + "#ato%d" % i, "BaseURL %d availabilityTimeOffset %s instead of %s" % (i, mpd.ato(i), plain.ato()))
                        scheme_host = ("https" if https else "http") + "://h.example.com"
                        if not url.startswith(scheme_host + "/"):
                            acc.bad(key + "#host", "BaseURL %s" % url)
                            continue
                        for ads in mpd.periods[-1].sets + mpd.periods[0].sets:
                            segs = ads.available(ads.reps[0], F(now), base=url)
                            for s in (segs[:1] + segs[-1:]):
                                s0 = srv.get(other + "sq/" + s.path, now)
                                got = srv.get(s.url[len(scheme_host):], now, prefix="")
                                want = 200 if s0.status == 200 and up(*p, int(now) % 60) else 404
                                acc.trans("fetched" if want == 200 else "refused")
                                if got.status != want:
                                    acc.bad(key + "#" + s.url, "answered %s, expected %s" % (got.status, want), path=s.url, now=now)
                                elif want == 200 and strip_event(acc, key, got.body, now)[0] != s0.body:
                                    acc.bad(key + "#" + s.url, "differs from the segment without the option", path=s.url, now=now)
                    # apart from the BaseURLs, it is the MPD without the options
                    if rest(r.body) != rest(ref.body):
                        acc.bad(key + "#rest", "the MPD differs in more than the BaseURLs", path=path, now=now)
        acc.trace()
        acc.sample("%d BaseURLs with %s" % (len(pats), other or "no other option"))


def rest(body):
    t = body.decode("utf-8")
    t = re.sub(r"<BaseURL[^>]*>[^<]*</BaseURL>\s*", "", t)
    t = re.sub(r'publishTime="[^"]*"', "", t)
    return t


def freeze_base(now, x, y):
    """Last second before the outage in which `now` lies."""
    m = int(now) % 60
    return int(now) - m + (m - 1) // (x + y) * (x + y) + x


def timelines(mpd):
    return [(p.id, p.start, [(a.ctype, a.reps, a.timescale, a.pto, a.media, a.snr, a.timeline) for a in p.sets]) for p in mpd.periods]


def shard_loss(acc, aname, opts):
    """segtimelineloss_1: the SegmentTimeline stands still in the outage."""
    asset = catalogue()[aname]
    with env.Server([asset]) as srv:
        for kind, x, y in [("u", 10, 5), ("u", 40, 20), ("u", 7, 6), ("u", 59, 1), ("u", 1, 2), ("u", 25, 40), ("u", 90, 30), ("u", 15, 45)]:
            for base in (1500000000 // 60 * 60, 1499999400 + 120):
                for m in range(60):
                    for now in (base + m, base + m + 0.5):
                        key = "%s/%s@%s" % (opt(kind, x, y), opts, now)
                        path = "%s/segtimelineloss_1/%s%s/Manifest.mpd" % (opt(kind, x, y), opts, aname)
                        acc.state()
                        r = srv.get(path, float(now))
                        down = not up(kind, x, y, m)
                        src = freeze_base(now, x, y) if down else now
                        ref = srv.get("%s%s/Manifest.mpd" % (opts, aname), float(src))
                        acc.trans("frozen" if down else "live")
                        if r.status != 200 or ref.status != 200:
                            acc.bad(key, "MPD answered %s / %s" % (r.status, ref.status), path=path, now=now)
                            continue
                        a, b = dash.Mpd(r.body, path), dash.Mpd(ref.body, path)
                        if timelines(a) != timelines(b):
                            acc.bad(key, "the SegmentTimeline is not the one of %s" % ("the last second before the outage" if down else "now"), path=path, now=now)
                        ev = event(kind, x, y, m)
                        for p in a.periods:
                            for ads in p.sets:
                                has = (SCHEME, "1") in ads.inband
                                if has != ev and (ev or not down):
                                    acc.bad(key + "#inband", "end-of-timeline event %s in the MPD at second %d" % ("signalled" if has else "not signalled", m),
                                            path=path, now=now)
                        for ads in a.periods[-1].sets:
                            s = ads.listed(ads.reps[0])[-1:]
                            if s and not down:
                                g = srv.get(s[0].url[len(HOST):], float(now), prefix="")
                                acc.trans("fetched")
                                if g.status != 200:
                                    acc.bad(key + "#last", "last listed segment answered %s" % g.status, path=s[0].url, now=now)
                acc.trace()
        acc.sample("segtimelineloss with %s: every half second of two minutes, 8 patterns" % opts)


def main():
    hi = 60 if core.thorough() else 18
    jobs = [("shard_patterns", (hi, i, 64 if core.thorough() else 16)) for i in range(64 if core.thorough() else 16)]
    for a, rid, ext, ck in (("sq", "V1", "m4s", False), ("sq", "A1", "m4s", False), ("one", "V1", "m4s", False), ("sq", "V1", "m4s", True), ("sq", "V1__A1", "m4s", False), ("sq", "A1__V1", "m4s", False), ("sq", "A1", "m4s", True)):
        jobs.append(("shard_combo", (a, rid, ext, ck)))
    jobs += [("shard_multi", (o, m)) for o in range(len(OTHER)) for m in range(len(MULTI))]
    for a in ("sq", "one"):
        for o in ("segtimeline_1/", "segtimelinenr_1/", "segtimeline_1/start_1499999400/tsbd_20/", "segtimelinenr_1/snr_5/", "segtimeline_1/periods_60/"):
            jobs.append(("shard_loss", (a, o)))
    return core.run_check(PID, __name__, jobs,
                          bounds="all patterns with parts 1..%d s plus long ones x every second of the minute; 10 patterns x 4 option contexts x 3 minutes x fractions x numbers "
                                 "(also muxed and chunked); 4 multi-BaseURL sets x 10 option sets x 14 instants x http/https; 8 loss patterns x 10 sessions x every half second" % hi,
                          assumptions=["second 0 of a minute belongs to no outage (the pattern starts anew each minute)"])
