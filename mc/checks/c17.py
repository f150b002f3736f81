"""C17: SCTE-35 splice announcements over whole hours of segments."""
import re
from fractions import Fraction as F
from xml.etree import ElementTree as ET
from .. import assets, env, model, core, iso, dash
from .c05 import get_mpd

PID = "C17"
SCHEME = "urn:scte:scte35:2013:xml"
PACKS = [dict(), dict(styp=None), dict(sidx=0, tfdt_version=1), dict(styp=None, sidx=1), dict(styp=(b'msdh', b'\0\0\0\0', b'msdh', b'msix'))]


def make(d):
    n = 3
    ts = (90000, 50, 12800, 10000000)[d % 4]
    reps = [assets.Rep("V%d" % i, "video", ts, 1, assets.even_segs("v%d" % i, n, d * ts, 2), p) for i, p in enumerate(PACKS)]
    a = assets.Rep("A1", "audio", 48000, 2, assets.even_segs("a", n, d * 48000, 2))
    s = assets.Rep("S1", "subtitles", 1000, 3, [(k * d * 1000, [assets.Smp(assets.ttml_doc(k, d), d * 1000, 0x02000000)]) for k in range(n)],
                   dict(dur_in="tfhd", size_in="tfhd", flags_in="tfhd"))
    return assets.Asset("d%d" % d, d, n, d % 3, reps + [a, s], mpd_kw=dict(profiles="urn:mpeg:dash:profile:isoff-live:2011"))


HOUR_END = 1500001200         # 2017-07-14T03:00:00Z
DAY_END = 1519862400          # 2018-03-01T00:00:00Z
YEAR_END = 1577836800         # 2020-01-01T00:00:00Z


def options(d):
    st = 3600 * 1000 * d + 1234
    big = 2 ** 33 // 90000 // 60 * 60 - 600
    return [model.Opts(), model.Opts(snr=1), model.Opts(snr=7), model.Opts(start=st), model.Opts(start=st, snr=5),
            model.Opts(start=st, timeoffset=0), model.Opts(start=st, timeoffset=st // d * d - 7 * d, snr=3), model.Opts(start=st, snr=-1),
            model.Opts(start=big, timeoffset=0),
            # over the end of an hour of a day, of a month and of a year, with numbers in step with the clock or not
            model.Opts(start=HOUR_END - 177), model.Opts(start=DAY_END - 230, snr=4), model.Opts(start=YEAR_END - 180, timeoffset=0)]


def message(data):
    """Independent decoding of the message data."""
    text = data.decode("utf-8")
    text = text.replace("<SpliceInfoSection ", '<SpliceInfoSection xmlns:scte35="x" ', 1) if "xmlns:scte35" not in text else text
    root = ET.fromstring(text)
    ins = [e for e in root.iter() if e.tag.endswith("SpliceInsert")]
    t = [e for e in root.iter() if e.tag.endswith("SpliceTime")]
    b = [e for e in root.iter() if e.tag.endswith("BreakDuration")]
    if not (len(ins) == len(t) == len(b) == 1):
        raise ValueError("%d SpliceInsert, %d SpliceTime, %d BreakDuration" % (len(ins), len(t), len(b)))
    if ins[0].get("spliceEventCancelIndicator") != "false" or ins[0].get("spliceImmediateFlag") != "false":
        raise ValueError("cancel/immediate flags %s" % ins[0].attrib)
    if b[0].get("autoReturn") != "true":        # nothing else announces the end of the break
        raise ValueError("break without return")
    section = next(e for e in root.iter() if e.tag.endswith("SpliceInfoSection"))
    tier = int(section.get("{x}tier", section.get("tier", "4095")))
    if not 0 <= tier <= 4095:
        raise ValueError("tier %d" % tier)
    pts = (int(t[0].get("ptsTime")) + int(section.get("ptsAdjustment", "0"))) % 2 ** 33
    if int(t[0].get("ptsTime")) >= 2 ** 33:
        raise ValueError("ptsTime %s" % t[0].get("ptsTime"))
    return int(ins[0].get("spliceEventId")), pts, int(b[0].get("duration"))


def walk(acc, srv, asset, o, N, rid, minutes, how=""):
    """how: "" plain, "chunk" low-latency, otherwise the other representation of a multiplex."""
    d = asset.dur
    m = model.Model(asset, o)
    rep = asset.rep(rid)
    trex = rep.trex
    opt = "scte35_%d/" % N + o.prefix() + ("chunkdur_%g/" % (d / 2) if how == "chunk" else "")
    if how not in ("", "chunk"):
        trex = {**trex, **asset.rep(how).trex}
        rid = rid + "__" + how if N != 2 else how + "__" + rid
    n0 = m.first
    cnt = minutes * 60 // d + 2
    events = {}           # absolute media time -> (id, duration)
    first_seen = {}
    sched = {1: [10], 2: [10, 40]}.get(N)
    t_lo = m.media_time(n0)
    for n in range(n0, n0 + cnt):
        now = float(m.avail_from(n))
        path = "%s%s/%s/%d.m4s" % (opt, asset.name, rid, n)
        key = "%s@%s" % (path, now)
        acc.state()
        r = srv.get(path, now)
        acc.trans("segment")
        if r.status != 200:
            acc.bad(key, "answered %s %r" % (r.status, r.body[:90]), path=path, now=now)
            continue
        seg = iso.parse_segment(r.body, trex, **(dict(max_moofs=2) if how == "chunk" else {}))
        start = F([t for t in seg.tracks if t.track_id == rep.track_id][0].tfdt, rep.timescale)
        end = start + d
        probs = []
        if rep.ctype != "video":
            if seg.emsgs:
                probs.append("%d emsg in a %s segment" % (len(seg.emsgs), rep.ctype))
        times = []
        for e in seg.emsgs:
            acc.trans("emsg")
            try:
                if e["scheme"] != SCHEME or e["version"] != 0:
                    raise ValueError("scheme %s version %d" % (e["scheme"], e["version"]))
                T = start + F(e["delta"], e["timescale"])
                eid, pts, brk = message(e["data"])
            except (ValueError, ET.ParseError, TypeError) as x:
                probs.append("message not decodable: %r" % x)
                continue
            dur = F(e["duration"], e["timescale"])
            times.append(T)
            if eid != e["id"]:
                probs.append("emsg id %d, splice event id %d" % (e["id"], eid))
            if pts != int(T * 90000) % 2 ** 33:
                probs.append("splice time %d does not match the event at %s s" % (pts, float(T)))
            if F(brk, 90000) != dur or dur <= 0:
                probs.append("break duration %d, event duration %s" % (brk, float(dur)))
            if T.denominator != 1 or (sched and int(T) % 60 not in sched):
                probs.append("event at media time %s" % float(T))
            if T < start:
                probs.append("event at %s announced after it started" % float(T))
            if events.setdefault(T, (e["id"], dur)) != (e["id"], dur):
                probs.append("event at %s has id/duration %s and %s" % (float(T), events[T], (e["id"], dur)))
            first_seen.setdefault(T, start)
        if len(set(times)) != len(times):
            probs.append("the same event twice in one segment")
        if probs:
            acc.bad(key, "; ".join(probs)[:400], path=path, now=now)
    if rep.ctype != "video":
        return
    # the schedule: N events every minute, each announced at least 6 s ahead
    lo_min = -(-t_lo // 60) + 1
    hi_min = (t_lo + (cnt - 1) * d) // 60 - 1
    pat = None
    wkey = "%s%s/%s" % (opt, asset.name, rid)
    for mi in range(lo_min, hi_min + 1):
        ev = sorted(int(T - mi * 60) for T in events if mi * 60 <= T < mi * 60 + 60 and T.denominator == 1)
        if len(ev) != N or ev[0] != 10:
            acc.bad(wkey, "minute %d of the media timeline has splices announced at seconds %s, expected %d starting at 10" % (mi, ev, N), path=wkey, minute=mi)
        if pat is not None and ev != pat:
            acc.bad(wkey + "#pat", "minute %d has splices at %s, earlier minutes at %s" % (mi, ev, pat), path=wkey, minute=mi)
        pat = ev
    inner = sorted(T for T in events if lo_min * 60 <= T < hi_min * 60 + 60)
    for T in inner:
        if T - first_seen[T] < 6:
            acc.bad(wkey + "#early", "splice at %s first announced in the segment starting at %s" % (float(T), float(first_seen[T])), path=wkey)
    ids = [events[T][0] for T in sorted(events)]
    if len(set(ids)) != len(ids):
        acc.bad(wkey + "#ids", "splice ids are not unique: %s" % ids[:20], path=wkey)
    for a, b in zip(inner, inner[1:]):
        if a + events[a][1] > b:
            acc.bad(wkey + "#overlap", "break at %s (%s s) overlaps the one at %s" % (float(a), float(events[a][1]), float(b)), path=wkey)
    acc.trace()
    acc.sample("%s: %d segments, %d splices" % (wkey, cnt, len(events)))


def mpd_signal(acc, srv, asset, o, N):
    m = model.Model(asset, o)
    for extra in ("", "segtimeline_1/", "periods_60/"):
        pre = ("scte35_%d/" % N if N else "") + extra + o.prefix()
        mpd = get_mpd(acc, srv, "%s%s/Manifest.mpd" % (pre, asset.name), float(m.ast + 1000))
        acc.state()
        acc.trans("mpd")
        if mpd is None:
            continue
        for p in mpd.periods:
            for ads in p.sets:
                has = [x for x in ads.inband if x[0] == SCHEME]
                if len(has) != (1 if N and ads.ctype == "video" else 0):
                    acc.bad("%s#inband" % pre, "%s AdaptationSet has InbandEventStream %s" % (ads.ctype, ads.inband), path=pre)
        has = "http://dashif.org/guidelines/adin/app" in mpd.attrib["profiles"].split(",")
        if has != bool(N):
            acc.bad("%s#profile" % pre, "profiles %s" % mpd.attrib["profiles"], path=pre)


def shard(acc, d, N, part):
    asset = make(d)
    minutes = 62 if core.thorough() or d > 8 else max(8, d + 3)
    with env.Server([asset]) as srv:
        for i, o in enumerate(options(d)):
            if i % 3 != part:
                continue
            mpd_signal(acc, srv, asset, o, N)
            if N == 0:
                for rep in asset.reps:
                    m = model.Model(asset, o)
                    for n in range(m.first, m.first + 60 // d + 2):
                        r = srv.get("%s%s/%s/%d.m4s" % (o.prefix(), asset.name, rep.id, n), float(m.avail_from(n)))
                        acc.state()
                        acc.trans("plain")
                        if r.status != 200 or iso.parse_segment(r.body, rep.trex).emsgs:
                            acc.bad("%s%d" % (o.prefix(), n), "emsg without scte35", path=o.prefix())
                continue
            for j, rep in enumerate(asset.reps):
                if rep.ctype != "video":
                    walk(acc, srv, asset, o, N, rep.id, 2)
                elif j == 0 or i == 0 or core.thorough():
                    walk(acc, srv, asset, o, N, rep.id, minutes if j == 0 else 4)
                    if i in (0, 5):
                        for how in ("chunk", "A1", "S1"):
                            walk(acc, srv, asset, o, N, rep.id, 3, how)


GAPS = sorted({2 ** k for k in range(23)} | {5 * 10 ** k for k in range(6)} | {10 ** k for k in range(7)} | {k * x for x in (60, 1440, 10080, 43200, 525600) for k in (1, 2, 3, 5, 7)})


def far_shard(acc, st, N):
    """Splice ids of one session never come back: whole days minute by minute, then far apart."""
    d = 30
    asset = make(d)
    days = 10 if core.thorough() else 2
    with env.Server([asset]) as srv:
        for snr in (None, 5):
            o = model.Opts(start=st, snr=snr)
            m = model.Model(asset, o)
            opt = "scte35_%d/" % N + o.prefix()
            minutes = list(range(days * 1440 + 5)) if snr is None else list(range(3))
            minutes += [g + x for g in GAPS for x in (-1, 0, 1) if g > minutes[-1] + 1]
            ids = {}
            for mi in sorted(set(minutes)):
                for n in (m.first + 2 * mi, m.first + 2 * mi + 1):
                    now = float(m.avail_from(n))
                    path = "%s%s/V0/%d.m4s" % (opt, asset.name, n)
                    acc.state()
                    r = srv.get(path, now)
                    acc.trans("segment")
                    if r.status != 200:
                        acc.bad("%s@%s" % (path, now), "answered %s" % r.status, path=path, now=now)
                        continue
                    for e in iso.parse_segment(r.body, asset.rep("V0").trex).emsgs:
                        acc.trans("emsg")
                        T = m.media_time(n) + F(e["delta"], e["timescale"])
                        eid, pts, brk = message(e["data"])
                        if eid != e["id"] or pts != int(T * 90000) % 2 ** 33:
                            acc.bad("%s@%s" % (path, now), "event at %s: ids %d and %d, splice time %d" % (float(T), e["id"], eid, pts), path=path, now=now)
                        if ids.setdefault(e["id"], T) != T:
                            acc.bad("%s%s#%d" % (opt, asset.name, e["id"]), "splices at %s and at %s have the same id %d" % (float(ids[e["id"]]), float(T), e["id"]), path=path, now=now)
            if not len(ids) >= N * len(minutes) * 9 // 10:
                acc.bad("%s%s#few" % (opt, asset.name), "%d splices in %d minutes" % (len(ids), len(minutes)), path=opt)
            acc.trace()
            acc.sample("%s: %d splices in %d minutes up to %d minutes" % (opt, len(ids), len(minutes), max(minutes)))


def main():
    jobs = [("far_shard", (st, N)) for st in (None, 1500000000, 60) for N in (1, 2, 3)]
    jobs += [("shard", (d, N, p)) for d in list(range(1, 13)) + [15, 20, 25, 30, 40, 45, 60] for N in (0, 1, 2, 3) for p in range(3)]
    return core.run_check(PID, __name__, jobs,
                          bounds="segment durations 1-12, 15, 20, 25, 30, 40, 45, 60 s x 1-3 splices per minute x 12 option sets (three over the end of an hour, a day and a year) x 5 packagings (also chunked, multiplexed with audio and with subtitles); every segment of at least 8 minutes (62 minutes for segments longer than 8 s) "
                                 "(whole cycles of segment and minute boundaries; thorough: 62 minutes); "
                                 "splice ids of 9 sessions over 2 whole days (thorough: 10) and %d minutes up to 8 years apart" % len(GAPS),
                          assumptions=[])
