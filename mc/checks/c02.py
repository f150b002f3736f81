"""C02: the live segment carries exactly the VoD segment at its loop position, for every loop count."""
from .. import assets, env, model, core, iso, common

PID = "C02"


def catalogue():
    return {"sq": assets.make_sq(), "odd": assets.make_odd(), "enc": assets.make_enc(), "one": assets.make_simple("one", 4, 1, first=3),
            "z": assets.make_simple("z", 1, 7, first=0), "cut": assets.make_cut(), "cue": assets.make_cue(),
            # decode times hit 2^31, 2^32 and 2^33 exactly
            "pow": assets.make_simple("pow", 2, 4, first=2, vts=65536, ats=1 << 20), "big": assets.make_big(), "runs": assets.make_runs(), "frags": assets.make_frags(), "boxes": assets.make_boxes(),
            # loops of more than an hour (many segments) and more than a day (long segments)
            "hour": assets.make_simple("hour", 1, 3700), "hns": assets.make_hns("hns"), "day": assets.make_simple("day", 600, 150, first=0)}


def option_sets(asset):
    M = model.Opts
    out = [M()]
    if asset.name == "big":
        return [M(), M(start=1600000000, timeoffset=0)]
    if asset.n > 100:
        return [M(), M(start=1600000000), M(start=1600000000, timeoffset=0), M(start=1500000001, snr=-1), M(snr=5)]
    for snr in (0, 1, 5, -1):
        out.append(M(snr=snr))
    for st in (60, 1500000001, 1600000000):
        out.append(M(start=st))
        out.append(M(start=st, snr=3))
        out.append(M(start=st, timeoffset=0))
        out.append(M(start=st, timeoffset=st // asset.loop * asset.loop - asset.dur))
        out.append(M(start=st, timeoffset=0, snr=2))
    return [o for o in out if o.timeoffset is None or o.timeoffset <= (o.start // asset.dur) * asset.dur]


def numbers(asset, n0):
    """All numbers of two loops. Of long loops, those next to round numbers and seconds."""
    if asset.n <= 100:
        return range(n0, n0 + 2 * asset.n + 4)
    marks = {0, 1, 2, 100, 128, 255, 256, 257, 1000, 1024, asset.n // 2, asset.n - 2, asset.n - 1} | {x // asset.dur + e for x in (60, 3600, 10800, 86400) for e in (-1, 0, 1)}
    return sorted({n for n in range(n0, n0 + 2 * asset.n + 4) if n % asset.n in marks} | set(range(n0, n0 + 3)))


def shard(acc, aname, rid):
    asset = catalogue()[aname]
    rep = asset.rep(rid)
    src = [common.source_segment(asset, rep, k) for k in range(asset.n)]
    with env.Server([asset]) as srv:
        for o in option_sets(asset):
            m = model.Model(asset, o)
            for anchor in common.anchors_for(asset, rep) + [m.media0]:
                if anchor < m.media0:
                    continue
                n0 = max(m.first, m.first + (anchor - m.media0) // asset.dur - asset.n - 1)
                for n in numbers(asset, n0):
                    acc.state()
                    loops, k = m.content(n)
                    for phase in (0, 0.75, asset.dur + m.tsbd):
                        now = float(m.avail_from(n)) + phase
                        path = "%s%s/%s/%d.m4s" % (o.prefix(), aname, rid, n)
                        r = srv.get(path, now)
                        problems = []
                        if r.status != 200:
                            problems.append("status %s" % r.status)
                        else:
                            try:
                                seg = iso.parse_joined(r.body, rep.trex, rep.frags)
                                t = seg.tracks[0]
                                if len(seg.tracks) != 1:
                                    problems.append("%d tracks" % len(seg.tracks))
                                if t.seqno != n:
                                    problems.append("sequence number %d" % t.seqno)
                                if t.track_id != rep.track_id:
                                    problems.append("track id %d" % t.track_id)
                                common.compare_content(rep, k, t, problems)
                                st = src[k].tracks[0]
                                if t.aux != st.aux:
                                    problems.append("sample auxiliary information differs")
                                if t.other_data != st.other_data:
                                    problems.append("track fragment side boxes %s differ from %s" % (t.other, st.other))
                                if seg.styp_words_or_none() != src[k].styp_words_or_none():
                                    problems.append("styp %s" % seg.brands)
                            except iso.IsoError as e:
                                problems.append("malformed: %s" % e)
                        acc.trans("k%d" % (k % 2))
                        if problems:
                            acc.bad("%s@%s" % (path, now), "loop %d pos %d: %s" % (loops, k, "; ".join(problems)),
                                    path=path, now=now)
                acc.trace()
            acc.sample("%s%s/%s: loops around media times %s" % (o.prefix(), aname, rid, common.anchors_for(asset, rep)))


def main():
    jobs = []
    for a, asset in catalogue().items():
        for r in asset.reps:
            jobs.append(("shard", (a, r.id)))
    return core.run_check(PID, __name__, jobs,
                          bounds="14 assets (loops from 4 s to 25 h; several track runs or fragments, segments of up to 16 MB, all sample-table layouts, encrypted, 32/64-bit, N in 1..7), 15-24 sessions each, "
                                 "2N+4 consecutive numbers around time 0, session start, 2^32 ticks, 1.6e9 and 1.7e9 s; 3 phases each",
                          assumptions=["VoD assets are synthetic"])
