"""C15: chunked low-latency segments, compared with the unchunked segment and the generated source."""
from fractions import Fraction as F
from .. import assets, env, model, core, iso
from ..iso import Smp
from .c14 import bare

PID = "C15"

# (packaging, sample duration pattern in ticks of 1/8 s, cto)
PACKS = [dict(), dict(styp=None), dict(styp=(b'msdh', b'\0\0\0\0', b'msdh'), tfdt_version=1),
         dict(flags_in="tfhd", first_flags=True), dict(flags_in="trex", first_flags=True), dict(flags_in="trex"),
         dict(dur_in="tfhd", size_in="tfhd", flags_in="tfhd"), dict(dur_in="trex", size_in="trex", flags_in="trex", first_flags=True),
         dict(dur_in="tfhd", tfdt_version=1, sidx=0), dict(dur_in="trex", sidx=1), dict(emsg=True, sidx=0), dict(cto=True),
         dict(cto=True, trun_version=1), dict(cto=True, trun_version=1, neg=True, flags_in="tfhd", first_flags=True),
         dict(default_base_moof=False), dict(size_in="tfhd", lmsg=True), dict(truns=3), dict(truns=2, flags_in="trex", first_flags=True),
         dict(truns=3, later_offsets=False)]
EQUAL = (1,) * 8
PATTERNS = [EQUAL, (2, 1, 3, 2, 2, 1, 1, 4), (4, 4, 4, 4), (16,), (1,) * 16, (3, 3, 3, 3, 3, 1)]


def rep_for(i, p, pattern, n, dur, ts, track, ctype):
    p = dict(p)
    neg = p.pop("neg", False)
    fixed = p.get("size_in", "trun") != "trun"
    unit = F(dur * ts, sum(pattern))
    assert unit.denominator == 1
    unit = int(unit)
    starts = [len(pattern) * q // p.get("truns", 1) for q in range(p.get("truns", 1))]
    segs = []
    for k in range(n):
        smps = []
        for j, w in enumerate(pattern):
            data = ("%s%d.%d.%d" % (ctype[0], i, k, j)).encode()
            data = (data + b"########")[:9] if fixed else data + b"z" * ((i + j + 2 * k) % 4)
            sync = j == 0 or (j % 5 == 3)
            fl = 0x02000000 if sync else 0x01010000
            if p.get("flags_in", "trun") != "trun":
                if p.get("first_flags"):
                    fl = 0x02000000 if j in starts else 0x01010000
                else:
                    fl = 0x01010000 if i % 2 else 0x02000000
            cto = 0
            if p.get("cto"):
                cto = (j * 7 % 3) * unit - (unit if neg else 0)
            smps.append(Smp(data, w * unit, fl, cto))
        segs.append((k * dur * ts, smps))
    init = {}
    if p.get("dur_in") == "trex":
        init["trex_dur"] = unit * pattern[0]
    if p.get("size_in") == "trex":
        init["trex_size"] = 9
    if p.get("flags_in") == "trex":
        init["trex_flags"] = segs[0][1][-1].flags
    return assets.Rep("%s%d" % (ctype[0].upper(), i), ctype, ts, track, segs, p, init)


def catalogue():
    n, dur, first = 3, 2, 4
    reps = []
    for i, p in enumerate(PACKS):
        reps.append(rep_for(i, p, EQUAL if "dur_in" in p else PATTERNS[(i + 1) % len(PATTERNS)], n, dur, 90000, 1, "video"))
    for i, pat in enumerate(PATTERNS):
        reps.append(rep_for(i, dict(dur_in="tfhd") if len(set(pat)) == 1 and i % 2 else {}, pat, n, dur, 48000, 2, "audio"))
    sq, odd, stp, big = assets.make_sq(), assets.make_odd(), assets.make_stp(), assets.make_big()
    big.reps = [r for r in big.reps if r.id != "V2"]
    return {"big": big, "pk": assets.Asset("pk", dur, n, first, reps), "sq": sq, "odd": odd, "stp": stp, "runs": assets.make_runs(), "frags": assets.make_frags(), "boxes": assets.make_boxes(), "hns": assets.make_hns("hns")}


def bounds(samples, D):
    """Reference: chunk i ends at the first sample boundary at or after i*D."""
    out, cur, t, i = [], [], 0, 1
    for s in samples:
        if cur and t >= i * D:
            out.append(cur)
            cur = []
            i += 1
        cur.append(s)
        t += s.dur
    if cur:
        out.append(cur)
    return out


def check(acc, srv, asset, rep, o, m, n, D):
    now = float(m.avail_from(n)) + 0.5
    base = model.Opts(start=o.start, snr=o.snr, timeoffset=o.timeoffset, durs=o.durs, extra=o.extra).prefix()
    path = "%schunkdur_%g/%s/%s/%d.m4s" % (base, float(D), asset.name, rep.id, n)
    key = "%s@%s" % (path, now)
    g = srv.get(path, now)
    u = srv.get("%s%s/%s/%d.m4s" % (base, asset.name, rep.id, n), now)
    acc.state()
    acc.trans("segment")
    if g.status != 200 or u.status != 200:
        return acc.bad(key, "answered %s %r (unchunked: %s)" % (g.status, g.body[:100], u.status), path=path, now=now)
    try:
        useg = iso.parse_joined(u.body, rep.trex, rep.frags)
        whole = useg.tracks[0]
        parts = [iso.parse_segment(c, rep.trex, max_moofs=1) for _, c in g.chunks]
    except iso.IsoError as e:
        return acc.bad(key, "malformed: %s" % e, path=path, now=now)
    probs = []
    t = whole.tfdt
    got = []
    for i, p in enumerate(parts):
        tr = p.tracks[0]
        if len(p.tracks) != 1 or tr.track_id != rep.track_id:
            probs.append("chunk %d has tracks %s" % (i, [x.track_id for x in p.tracks]))
        if p.sidxs or (i and (p.brands is not None or p.emsgs)):
            probs.append("chunk %d has segment-level boxes %s" % (i, p.tops))
        if i == 0 and (p.brands != useg.brands or bare(p.emsgs) != bare(useg.emsgs)):
            probs.append("brands %s and %d events instead of %s and %d" % (p.brands, len(p.emsgs), useg.brands, len(useg.emsgs)))
        if tr.tfdt != t:
            probs.append("chunk %d starts at %d instead of %d" % (i, tr.tfdt, t))
        t = tr.tfdt + tr.dur
        got.append(tr.samples)
    flat = [s for c in got for s in c]
    if not model.same_samples(flat, whole.samples):
        probs.append("samples differ: %r instead of %r" % (flat[:3], whole.samples[:3]))
    exp_t, exp_s = m.expect(rep, n)
    if rep.ctype != "subtitles" and (whole.tfdt != exp_t or not model.same_samples(flat, exp_s)):
        probs.append("samples or decode time differ from the stored segment")
    want = [len(c) for c in bounds(whole.samples, D * rep.timescale)]
    if [len(c) for c in got] != want:
        probs.append("chunks of %s samples instead of %s" % ([len(c) for c in got], want))
    if probs:
        acc.bad(key, "; ".join(probs)[:500], path=path, now=now)


def durations(rep):
    """Chunk durations (exact binary fractions), none shorter than the longest sample."""
    longest = max(F(s.dur, rep.timescale) for _, ss in rep.segs for s in ss)
    out = []
    cand = [F(1, 16), F(1, 8), F(3, 16), F(1, 4), F(5, 16), F(3, 8), F(1, 2), F(5, 8), F(3, 4), F(1), F(5, 4), F(3, 2), F(7, 4), F(2), F(9, 4), F(5)]
    for D in cand:
        if D >= longest and (D * rep.timescale).denominator == 1:
            out.append(D)
    return out if core.thorough() else out[:9] + out[-2:]


def shard(acc, aname, lo, hi):
    asset = catalogue()[aname]
    with env.Server([asset]) as srv:
        for rep in asset.reps[lo:hi]:
            far = (2 ** 32 // rep.timescale // asset.loop + 1) * asset.loop // asset.dur
            opts = [model.Opts(), model.Opts(start=600, snr=3), model.Opts(start=600, timeoffset=600 - asset.loop - asset.dur),
                    model.Opts(start=600, durs=(asset.loop,)), model.Opts(extra=("sidx_1",)), model.Opts(extra=("scte35_3",))]
            for o in opts:
                m = model.Model(asset, o)
                ns = [m.first + k for k in range(asset.n + 2)]
                if m.last is not None:
                    ns = [n for n in ns if n <= m.last]
                if o.start is None:
                    ns += [far - 1, far, 1600000000 // asset.dur + 1]
                for D in durations(rep):
                    for n in ns:
                        check(acc, srv, asset, rep, o, m, n, D)
            acc.trace()
            acc.sample("%s/%s: %d chunk durations x 6 option sets against the unchunked segments" % (aname, rep.id, len(durations(rep))))


def main():
    jobs = []
    for a, asset in catalogue().items():
        for lo in range(0, len(asset.reps)):
            jobs.append(("shard", (a, lo, lo + 1)))
    return core.run_check(PID, __name__, jobs,
                          bounds="19 video packagings, 6 sample-duration patterns, further assets (300 samples and 1 MB per segment; several track runs; several fragments) x chunk durations from one sample to beyond the segment x "
                                 "6 option sets x segments over more than one loop, including 64-bit decode times",
                          assumptions=["unencrypted single-track segments, chunk duration not shorter than a sample"])
