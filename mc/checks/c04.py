"""C04: every emitted segment is a structurally valid, self-consistent ISO-BMFF segment."""
import itertools
from .. import assets, env, model, core, iso, common

PID = "C04"
PACK = ["sidx_1", "scte35_3", "baseurl_u20_d10", "LAST"]


def catalogue():
    return {"sq": assets.make_sq(), "odd": assets.make_odd(), "enc": assets.make_enc(), "stp": assets.make_stp(),
            "ord": make_ord(), "runs": assets.make_runs(), "frags": assets.make_frags(), "boxes": assets.make_boxes(), "hns": assets.make_hns("hns")}


def make_ord():
    """No default-base-is-moof, lmsg, sidx and emsg already in the source segments."""
    n, d = 2, 2
    v = assets.Rep("V1", "video", 90000, 5, assets.even_segs("v", n, d * 90000, 2),
                   dict(default_base_moof=False, lmsg=True, sidx=0))
    a = assets.Rep("A1", "audio", 48000, 6, assets.even_segs("a", n, d * 48000, 2), dict(emsg=True, sidx=1, lmsg=True))
    return assets.Asset("ord", d, n, 1, [v, a])


def check_one(acc, srv, asset, rep, o, m, n, now, want_last, want_loss_emsg):
    path = "%s%s/%s/%d.m4s" % (o.prefix(), asset.name, rep.id, n)
    r = srv.get(path, now)
    problems = []
    if r.status != 200:
        problems.append("status %s %r" % (r.status, r.body[:100]))
    else:
        try:
            seg = iso.parse_joined(r.body, rep.trex, rep.frags)
            t = seg.tracks[0]
            src = common.source_segment(asset, rep, m.content(n)[1])
            if rep.ctype != "subtitles":
                common.compare_content(rep, m.content(n)[1], t, problems)
                if t.aux != src.tracks[0].aux:
                    problems.append("sample auxiliary information is not the original")
            else:
                if len(t.samples) != 1 or not t.samples[0].data.startswith(b"<?xml") or \
                        not t.samples[0].data.rstrip().endswith(b"</tt>"):
                    problems.append("subtitle sample is not the whole TTML document: %r" % t.samples[0].data[-20:])
            mdat_end = len(r.body)
            if seg.brands is not None:
                if (b"lmsg" in seg.brands) != want_last:
                    problems.append("lmsg brand %s, expected %s" % (b"lmsg" in seg.brands, want_last))
                a = [b for b in seg.styp_words if b != b"lmsg"]
                b = [b for b in src.styp_words if b != b"lmsg"]
                if a != b:
                    problems.append("styp brands %s instead of %s" % (a, b))
            elif src.styp_words_or_none() is not None:
                problems.append("styp lost")
            want_sidx = "sidx_1" in o.extra
            if len(seg.sidxs) != (1 if want_sidx else 0):
                problems.append("%d sidx boxes" % len(seg.sidxs))
            for s in seg.sidxs:
                if s["timescale"] != rep.timescale or s["ept"] != t.tfdt:
                    problems.append("sidx timing %s/%s vs decode time %d/%d" % (s["ept"], s["timescale"], t.tfdt, rep.timescale))
                if len(s["refs"]) != 1 or s["refs"][0]["dur"] != t.dur or s["refs"][0]["type"] != 0:
                    problems.append("sidx references %s, segment lasts %d" % (s["refs"], t.dur))
                if s["ref_id"] != rep.track_id:
                    problems.append("sidx reference_ID %d, track is %d" % (s["ref_id"], rep.track_id))
            loss = [e for e in seg.emsgs if e["scheme"] == "urn:mpeg:dash:event:2012"]
            if (len(loss) > 0) != want_loss_emsg:
                problems.append("%d DASH event messages" % len(loss))
            want, _ = m.expect(rep, n)
            if t.tfdt != want:
                problems.append("decode time %d instead of %d" % (t.tfdt, want))
        except iso.IsoError as e:
            problems.append("malformed: %s" % e)
    acc.trans("lmsg" if want_last else "plain")
    if problems:
        acc.bad("%s@%s" % (path, now), "; ".join(problems), path=path, now=now)


def shard(acc, aname, rid):
    asset = catalogue()[aname]
    rep = asset.rep(rid)
    d = asset.dur
    with env.Server([asset]) as srv:
        for mask in itertools.product((0, 1), repeat=len(PACK)):
            pack = [p for p, b in zip(PACK, mask) if b]
            last = "LAST" in pack
            for anchor in common.anchors_for(asset, rep):
                for tmo in (None, 0):
                    extra = [p for p in pack if p != "LAST"]
                    if tmo == 0 and "sidx_1" not in extra:
                        extra.append("sidx_0")
                    if last:
                        st = anchor - anchor % 60
                        o = model.Opts(start=st, durs=(60 * d,), timeoffset=tmo, tsbd=600, extra=extra)
                    elif tmo is None:
                        o = model.Opts(extra=extra, tsbd=600)
                    else:
                        o = model.Opts(start=60, timeoffset=0, extra=extra, tsbd=600)
                    m = model.Model(asset, o)
                    n0 = m.last - asset.n - 1 if last else max(m.first, m.first + (anchor - m.media0) // d - 2)
                    for n in range(n0, n0 + asset.n + 2):
                        acc.state()
                        a = m.avail_from(n)
                        # one instant in the up-time and, with baseurl, the event instant 20 s past the minute
                        up = float(a + (-a) % 60 + 5)
                        check_one(acc, srv, asset, rep, o, m, n, up, last and n == m.last, False)
                        if "baseurl_u20_d10" in extra:
                            for sec in (20, 50):
                                ev = float(a + (-a) % 60 + sec) + 0.5
                                check_one(acc, srv, asset, rep, o, m, n, ev, last and n == m.last, True)
                    acc.trace()
        acc.sample("%s/%s: all %d packaging-option subsets" % (aname, rid, 2 ** len(PACK)))


def main():
    jobs = [("shard", (a, r.id)) for a, asset in catalogue().items() for r in asset.reps]
    return core.run_check(PID, __name__, jobs,
                          bounds="8 assets (several track runs or fragments per segment included) x all 16 subsets of {sidx, scte35, baseurl event, last segment} x 4 time anchors (32/64-bit) x 2 offsets x N+2 numbers",
                          assumptions=[])
