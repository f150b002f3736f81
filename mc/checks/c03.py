"""C03: one continuous media timeline anchored to the wall clock."""
from .. import assets, env, model, core, iso, common
from . import c02

PID = "C03"


def anchors(asset, rep):
    ts = rep.timescale
    out = {0}
    for ticks in (1 << 31, 1 << 32, 1 << 33):
        out.add(ticks // ts)
    for s in (86400, 1500000000, 1600000000, 1 << 31, 1 << 32, 1777777777):
        out.add(s)
    return sorted(x // asset.dur * asset.dur for x in out)


def shard(acc, aname, rid):
    asset = c02.catalogue()[aname]
    rep = asset.rep(rid)
    opts = [o for o in c02.option_sets(asset)]
    with env.Server([asset]) as srv:
        for o in opts:
            m = model.Model(asset, o)
            for anchor in anchors(asset, rep):
                if anchor < m.media0 and anchor != 0:
                    continue
                base = m.first + max(0, anchor - m.media0) // asset.dur
                prev_end = None
                for n in range(max(m.first, base - asset.n), base + asset.n + 3):
                    if n >= 1 << 32:      # mfhd sequence numbers are 32-bit by format
                        continue
                    acc.state()
                    now = float(m.avail_from(n)) + 0.25
                    path = "%s%s/%s/%d.m4s" % (o.prefix(), aname, rid, n)
                    r = srv.get(path, now)
                    key = "%s@%s" % (path, now)
                    acc.trans()
                    if r.status != 200:
                        acc.bad(key, "status %s" % r.status, path=path, now=now)
                        prev_end = None
                        continue
                    try:
                        t = iso.parse_joined(r.body, rep.trex, rep.frags).tracks[0]
                    except (iso.IsoError, IndexError) as e:
                        acc.bad(key, "malformed: %s" % e, path=path, now=now)
                        prev_end = None
                        continue
                    acc.outcomes["tfdt64" if t.tfdt_version else "tfdt32"] = acc.outcomes.get(
                        "tfdt64" if t.tfdt_version else "tfdt32", 0) + 1
                    want, _ = m.expect(rep, n)
                    if t.tfdt != want:
                        acc.bad(key, "decode time %d, expected %d (media time %.3f s)" % (
                            t.tfdt, want, want / rep.timescale), path=path, now=now)
                    if prev_end is not None and t.tfdt != prev_end:
                        acc.bad(key + "#gap", "segment %d starts at %d but segment %d ended at %d" % (
                            n, t.tfdt, n - 1, prev_end), path=path, now=now)
                    prev_end = t.tfdt + t.dur
                acc.trace()
        acc.sample("%s/%s around media seconds %s, %d sessions" % (aname, rid, anchors(asset, rep), len(opts)))


def main():
    jobs = [("shard", (a, r.id)) for a, asset in c02.catalogue().items() for r in asset.reps]
    return core.run_check(PID, __name__, jobs,
                          bounds="%d assets x 15-24 sessions x 10 anchors (2^31,2^32,2^33 ticks; 2^31, 2^32 s; loop wraps) x 2N+3 numbers" % len(c02.catalogue()),
                          assumptions=["VoD loops are themselves gapless and start at media time 0"])
