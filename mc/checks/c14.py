"""C14: multiplexed segments, compared with the single-track live segments."""
from .. import assets, env, model, core, iso
from ..iso import Smp

PID = "C14"

PACKS = [dict(), dict(styp=None), dict(tfdt_version=1, dur_in="tfhd", flags_in="tfhd", first_flags=True),
         dict(dur_in="trex", flags_in="trex", styp=(b'msdh', b'\0\0\0\0', b'msdh')), dict(sidx=0), dict(sidx=1, tfdt_version=1, emsg=True),
         dict(size_in="tfhd", dur_in="tfhd", order="tfdt_first"), dict(size_in="trex", dur_in="trex", flags_in="trex"),
         dict(cto=True, lmsg=True), dict(truns=3), dict(truns=2, dur_in="tfhd", tfdt_version=1, later_offsets=False, size_in="tfhd"),
         dict(size_in="tfhd", same=True), dict(size_in="tfhd", same=True, tfdt_version=1, dur_in="tfhd")]


def rep_for(tag, i, p, n, dur, track, ts, ctype):
    p = dict(p)
    fixed = 9 if p.get("size_in", "trun") != "trun" else 0
    if p.pop("same", False):            # the default sample size has the same value as the data offset
        raw = iso.media_segment(1, track, 0, [Smp(b"", 1, 0)] * 3, timescale=ts, **p)
        fixed = raw.index(b"mdat") + 4 - raw.index(b"moof") + 4
    segs = []
    per = 3
    d = dur * ts // per
    for k in range(n):
        smps = []
        for j in range(per):
            data = ("%s%d.%d.%d" % (tag, i, k, j)).encode()
            if not fixed:
                data += b"z" * ((i + j + 2 * k) % 4)
            else:
                data = (data + b"#" * fixed)[:fixed]
            fl = 0x02000000 if j == 0 else 0x01010000
            if p.get("flags_in", "trun") != "trun" and not p.get("first_flags"):
                fl = 0x02000000
            smps.append(Smp(data, d, fl, 7 * j if p.get("cto") else 0))
        segs.append((k * dur * ts, smps))
    init = dict(version=i % 2, mehd=bool(i % 3))
    if p.get("dur_in") == "trex":
        init["trex_dur"] = d
    if p.get("size_in") == "trex":
        init["trex_size"] = fixed
    if p.get("flags_in") == "trex":
        init["trex_flags"] = 0x02000000
    return assets.Rep("%s%d" % (tag, i), ctype, ts, track, segs, p, init)


def make():
    n, dur, first = 3, 2, 4
    vs = [rep_for("V", i, p, n, dur, 1, 90000, "video") for i, p in enumerate(PACKS)]
    aus = [rep_for("A", i, p, n, dur, 2, 48000, "audio") for i, p in enumerate(PACKS)]
    return assets.Asset("mux", dur, n, first, vs + aus)


def make_frags():
    """Segments of one to three fragments, also with several track runs."""
    n, dur, first = 3, 2, 1
    reps = [assets.Rep("%s%d" % (c, i), ctype, ts, track, assets.even_segs("%s%d" % (c, i), n, dur * ts, 6), p)
            for c, ctype, ts, track in (("v", "video", 90000, 1), ("a", "audio", 48000, 2))
            for i, p in enumerate((dict(), dict(frags=2, emsg=True, tfdt_version=1), dict(frags=3, styp=None, dur_in="tfhd"), dict(frags=2, truns=2, lmsg=True)))]
    return assets.Asset("frags", dur, n, first, reps)


def cat():
    return {"mux": make(), "sq": assets.make_sq(), "stp": assets.make_stp(), "odd": assets.make_odd(), "big": assets.make_big(), "runs": assets.make_runs(),
            "frags": make_frags(), "boxes": assets.make_boxes(), "hns": assets.make_hns("hns")}


def pairs(asset):
    if asset.name == "mux":
        vs = [r.id for r in asset.reps if r.ctype == "video"]
        aus = [r.id for r in asset.reps if r.ctype == "audio"]
        return [(v, a) for v in vs for a in aus] + [(a, v) for v in vs for a in aus]
    if asset.name == "big":
        return [("V1", "A1"), ("A1", "V1")]
    return [(a.id, b.id) for a in asset.reps for b in asset.reps if a.track_id != b.track_id]


def shard(acc, aname, lo, hi):
    asset = cat()[aname]
    d = asset.dur
    with env.Server([asset]) as srv:
        for i1, i2 in pairs(asset)[lo:hi]:
            r1, r2 = asset.rep(i1), asset.rep(i2)
            check_init(acc, srv, asset, r1, r2)
            far = (2 ** 32 // 48000 // asset.loop + 1) * asset.loop
            opts = [model.Opts(), model.Opts(start=600, snr=3), model.Opts(extra=("sidx_1",)),
                    model.Opts(start=600, timeoffset=600 - asset.loop - d), model.Opts(extra=("periods_60",)),
                    model.Opts(start=600, durs=(asset.loop,)), model.Opts(extra=("scte35_3",))]
            for o in opts:
                m = model.Model(asset, o)
                if o.start is None:
                    ns = list(range(asset.n + 2)) + [far // d - 1, far // d, far // d + 1, 1600000000 // d]
                else:
                    ns = [m.first + k for k in range(asset.n if m.last is not None else asset.n + 2)]
                for n in ns:
                    now = float(m.avail_from(n)) + 0.5
                    pre = "%s%s/" % (o.prefix(), asset.name)
                    p = "%s%s__%s/%d.m4s" % (pre, i1, i2, n)
                    acc.state()
                    g = srv.get(p, now)
                    acc.trans("media")
                    key = "%s@%s" % (p, now)
                    if g.status != 200:
                        acc.bad(key, "muxed segment answered %s %r" % (g.status, g.body[:90]), path=p, now=now)
                        continue
                    try:
                        got = iso.join(iso.parse_segment(g.body, {**r1.trex, **r2.trex}, max_moofs=max(r1.frags, r2.frags)))
                        want, events = [], []
                        for r in (r1, r2):
                            s = srv.get("%s%s/%d.m4s" % (pre, r.id, n), now)
                            single = iso.parse_joined(s.body, r.trex, r.frags)
                            want.append(single.tracks[0])
                            events += [e for e in bare(single.emsgs) if e not in events]
                    except iso.IsoError as e:
                        acc.bad(key, "malformed: %s" % e, path=p, now=now)
                        continue
                    probs = []
                    if [t.track_id for t in got.tracks] != [r1.track_id, r2.track_id]:
                        probs.append("tracks %s" % [t.track_id for t in got.tracks])
                    else:
                        for t, w in zip(got.tracks, want):
                            if (t.tfdt, t.dur, t.seqno) != (w.tfdt, w.dur, w.seqno):
                                probs.append("track %d: decode time/duration/number %s instead of %s" % (
                                    t.track_id, (t.tfdt, t.dur, t.seqno), (w.tfdt, w.dur, w.seqno)))
                            if not model.same_samples(t.samples, w.samples):
                                probs.append("track %d: samples %r instead of %r" % (t.track_id, t.samples[:2], w.samples[:2]))
                            exp = m.expect(asset.rep(i1 if t.track_id == r1.track_id else i2), n)
                            if t.tfdt != exp[0]:
                                probs.append("track %d: decode time %d instead of %d" % (t.track_id, t.tfdt, exp[0]))
                    styps = [iso_brands(r, 0) for r in (r1, r2)]
                    if got.brands is None and styps[0] is not None:
                        probs.append("no styp")
                    if got.brands is not None and (b"lmsg" in got.brands) != (m.last is not None and n == m.last):
                        probs.append("brands %s" % got.brands)
                    if bare(got.emsgs) != events:
                        probs.append("events %s instead of %s" % (bare(got.emsgs), events))
                    if probs:
                        acc.bad(key, "; ".join(probs)[:400], path=p, now=now)
                # not available earlier or later than the parts
                for n, now in ((m.first + 1, float(m.avail_from(m.first + 1)) - 0.25), (m.first, float(m.avail_until(m.first)) + 1)):
                    p = "%s%s/%s__%s/%d.m4s" % (o.prefix(), asset.name, i1, i2, n)
                    g = srv.get(p, now)
                    acc.trans("unavailable")
                    if g.status != 404:
                        acc.bad("%s@%s" % (p, now), "muxed segment outside its window answered %s" % g.status, path=p, now=now)
            acc.trace()
            acc.sample("%s/%s__%s: init and %d media segments against the single tracks" % (aname, i1, i2, 6 * asset.n))


def bare(events):
    return [{k: v for k, v in e.items() if k != "off"} for e in events]


def iso_brands(rep, k):
    return iso.parse_joined(rep.seg_bytes(k, 0), rep.trex, rep.frags).brands


def strip_dur(raw_trak):
    return raw_trak


def check_init(acc, srv, asset, r1, r2):
    now = 1600000000.0
    p = "%s/%s__%s/init.mp4" % (asset.name, r1.id, r2.id)
    acc.state()
    g = srv.get(p, now)
    acc.trans("init")
    probs = []
    if g.status != 200:
        probs.append("answered %s %r" % (g.status, g.body[:80]))
    else:
        try:
            got = iso.parse_init(g.body)
            if got["tops"][0] != b"ftyp" or got["mvhd_dur"]:
                probs.append("boxes %s, movie duration %d" % (got["tops"], got["mvhd_dur"]))
            if len(got["tracks"]) != 2:
                probs.append("%d tracks" % len(got["tracks"]))
            for r, t in zip((r1, r2), got["tracks"]):
                s = srv.get("%s/%s/init.mp4" % (asset.name, r.id), now)
                w = iso.parse_init(s.body)["tracks"][0]
                if t != w:
                    probs.append("track %s differs from its own init segment: %s / %s" % (
                        r.id, {k: v for k, v in t.items() if k != "raw"}, {k: v for k, v in w.items() if k != "raw"}))
            if got["trex"] != {**r1.trex, **r2.trex}:
                probs.append("trex defaults %s" % got["trex"])
        except (iso.IsoError, IndexError) as e:
            probs.append("malformed: %s" % e)
    if probs:
        acc.bad(p, "; ".join(probs)[:400], path=p, now=now)


def main():
    jobs = []
    for a, asset in cat().items():
        n = len(pairs(asset))
        for lo in range(0, n, 6):
            jobs.append(("shard", (a, lo, lo + 6)))
    return core.run_check(PID, __name__, jobs,
                          bounds="all ordered pairs of 13 video x 13 audio packagings (plus %d further assets, one with several fragments in a segment) x 7 option sets x segments over more than "
                                 "one loop, including 64-bit decode times" % (len(cat()) - 1),
                          assumptions=["unencrypted tracks"])
