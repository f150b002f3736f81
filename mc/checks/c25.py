"""C25: subtitle (stpp) segments."""
import itertools
import os
import time
from .. import assets, env, core, iso
from ..iso import Smp
from ..model import Opts, Model

PID = "C25"

SUFFIX = ["", ".000", ".5", ".999", ":12"]
HMS = [(h, m, s) for h in (0, 1, 23, 24, 99) for m in (0, 1, 59) for s in (0, 1, 59)]


class T:
    """A time expression in an attribute."""
    def __init__(self, attr, h, m, s, suf=""):
        self.attr, self.x, self.suf = attr, (h, m, s), suf

    def old(self):
        return '%s="%02d:%02d:%02d%s"' % ((self.attr,) + self.x + (self.suf,))

    def new(self, off, nr):
        t = self.x[0] * 3600 + self.x[1] * 60 + self.x[2] + off
        return '%s="%02d:%02d:%02d%s"' % (self.attr, t // 3600, t // 60 % 60, t % 60, self.suf)


class L:
    """Language and time in the text."""
    def __init__(self, lang, h, m, s, suf=""):
        self.lang, self.x, self.suf = lang, (h, m, s), suf

    def old(self):
        return "%s : %02d:%02d:%02d%s" % ((self.lang,) + self.x + (self.suf,))

    def new(self, off, nr):
        t = self.x[0] * 3600 + self.x[1] * 60 + self.x[2] + off
        g = env._real_gmtime(t)
        return "%s : UTC = %04d-%02d-%02dT%02d:%02d:%02dZ" % (self.lang, g.tm_year, g.tm_mon, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec)


class N:
    """Segment number in the text."""
    def __init__(self, n):
        self.n = n

    def old(self):
        return "Segment # %d" % self.n

    def new(self, off, nr):
        return "Segment # %d" % nr


HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="en">\n<head><styling><style xml:id="s00:00:01"/></styling></head>\n<body><div>\n'
TAIL = '</div></body></tt>\n'
DECOY = ["", "dur=\"00:00:01.000\" ", "r\u00e5d at 00:00:10, 12:34, Segment 12, Segments # x ", "beginning 00:00:02 end 00:00:03 Segment #12 ", "begin=\"\" end=\"x\" "]


def p(begin, end, *parts, decoy=""):
    return ["<p xml:id=\"p1\" ", begin, " ", end, ' region="r">', decoy] + list(parts) + ["</p>\n"]


def render(parts, off=None, nr=None):
    return "".join(x if isinstance(x, str) else (x.old() if off is None else x.new(off, nr)) for x in parts).encode("utf-8")


def docs():
    """All documents explored, as lists of parts."""
    out = []
    for (h, m, s) in HMS:                                       # single paragraph, every value and format
        for suf in SUFFIX:
            out.append([HEAD] + p(T("begin", h, m, s, suf), T("end", h, m, s, suf)) + [TAIL])
    for (h, m, s), suf in itertools.product(HMS, ("", ".000", ".25")):
        out.append([HEAD] + p(T("begin", h, m, s), T("end", h, m, s, ".999"), L("en", h, m, s, suf)) + [TAIL])
    for d in DECOY:                                             # text that is no time of the document
        for nr in (0, 1, 9, 12, 99999):
            out.append([HEAD] + p(T("begin", 0, 0, 1, ".5"), T("end", 0, 0, 2, ".25"), N(nr), "<br/>", L("swe", 0, 0, 1), decoy=d) + [TAIL])
    out.append([HEAD, TAIL])
    out.append([HEAD.replace("\n", "\r\n"), '<p end="00:00:01.0" ', T("begin", 0, 0, 1), ">", N(1), N(2), L("x", 0, 0, 1), " ", L("y", 1, 2, 3), "</p>", TAIL])
    out[-1][1] = "<p "
    big = [HEAD]
    for (h, m, s), suf in itertools.product(HMS, SUFFIX):
        big += p(T("begin", h, m, s, suf), T("end", h, m, 59, suf), L("de", h, m, s), " ", N(s), decoy="\u2014")
    out.append(big + [TAIL])
    for n in range(0, 12):                                      # sizes around box-size digits, nested elements
        out.append([HEAD + "<!--%s-->" % ("x" * n), '<div ', T("begin", 0, 0, n), '><p ', T("end", 0, 0, 59), "><span ", T("begin", 0, 1, n, ".5"),
                    " ", T("end", 0, 1, n + 1, ".5"), ">a</span></p></div>", TAIL])
    return out


PACK = [("S1", 1, dict()), ("S2", 0, dict(styp=None)), ("S3", 1, dict(sidx=0)), ("S4", 1, dict(flags_in="trun", sdi=1)),
        ("S5", 1, dict(extra=dict(top=assets.PRFT, moof=assets.UUID, traf0=assets.UUID, traf1=assets.FREE, traf2=assets.SUBS, end=assets.FREE)))]
SCALES = (1000, 90000, 1, 10000000)


def make(ds, dur=2, first=1, ts=1000):
    """An asset whose subtitle segments hold the given documents."""
    n = len(ds)
    v = assets.Rep("V1", "video", 90000, 1, [(k * dur * 90000, [Smp(b'begin="00:00:01" end="00:00:02" en : 00:00:01 Segment # 3', dur * 90000, 0x02000000)])
                                           for k in range(n)])
    subs = []
    for rid, tv, kw in PACK:
        segs = [(k * dur * ts, [Smp(render(d), dur * ts, 0x02000000)]) for k, d in enumerate(ds)]
        subs.append(assets.Rep(rid, "subtitles", ts, 3, segs, dict(dict(dur_in="tfhd", size_in="tfhd", flags_in="tfhd", tfdt_version=tv), **kw)))
    return assets.Asset("stx", dur, n, first, [v] + subs)


def option_sets(d):
    return [Opts(), Opts(snr=5), Opts(start=1600000000), Opts(start=1600000000, timeoffset=1599999000), Opts(start=600 * d, timeoffset=0, snr=-1),
            Opts(extra=("sidx_1",)), Opts(extra=("scte35_2",)), Opts(extra=("chunkdur_1",)), Opts(start=1600000000, durs=(40,))]


def check_one(acc, srv, asset, ds, o, m, rep, n, mux=False):
    loops, k = m.content(n)
    off = loops * asset.loop
    now = float(m.avail_from(n)) + 0.25
    if not mux:
        path = "%sstx/%s/%d.m4s" % (o.prefix(), rep.id, n)
    else:
        path = "%sstx/V1__%s/%d.m4s" % (o.prefix(), rep.id, n)
    key = "%s doc%d" % (path, k)
    acc.state()
    r = srv.get(path, now)
    acc.trans("muxed" if mux else "subtitle")
    if r.status != 200 or r.error:
        acc.bad(key, "answered %s %r %r" % (r.status, r.error, r.body[:100]), path=path, now=now)
        return
    if len(r.body) != int(r.headers.get("content-length", len(r.body))):
        acc.bad(key, "Content-Length %s for %d bytes" % (r.headers.get("content-length"), len(r.body)), path=path, now=now)
    vrep = asset.reps[0]
    trex = {1: vrep.trex[1], 2: rep.trex[3], 3: rep.trex[3]}
    try:
        s = iso.parse_segment(r.body, trex)
    except iso.IsoError as e:
        acc.bad(key, "malformed: %s" % e, path=path, now=now)
        return
    t = s.tracks[-1]
    want = render(ds[k], off, n)
    got = [x.data for x in t.samples]
    if got != [want]:
        g = got[0] if got else b""
        pos = next((i for i, (a, b) in enumerate(zip(g, want)) if a != b), min(len(g), len(want)))
        acc.bad(key, "text of segment %d (document %d, offset %d s): %r instead of %r (%d samples)" % (
            n, k, off, g[max(0, pos - 30):pos + 40], want[max(0, pos - 30):pos + 40], len(got)), path=path, now=now)
    exp = (k * asset.dur + off) * rep.timescale
    if t.tfdt != exp or t.seqno != n or sum(x.dur for x in t.samples) != asset.dur * rep.timescale:
        acc.bad(key, "decode time %d (expected %d), number %d" % (t.tfdt, exp, t.seqno), path=path, now=now)
    if mux:
        v = s.tracks[0]
        if [x.data for x in v.samples] != [vrep.segs[k][1][0].data] or v.tfdt != (k * asset.dur + off) * 90000:
            acc.bad(key, "video track of the multiplexed segment changed", path=path, now=now)


def shard(acc, part, parts, group):
    """Documents in groups (one looped asset per group)."""
    all_docs = docs()
    mine = all_docs[part::parts]
    for lo in range(0, len(mine), group):
        ds = mine[lo:lo + group]
        asset = make(ds, dur=2 if part % 2 else 3, first=part % 3, ts=SCALES[(part + lo // group) % 4])
        n = len(ds)
        with env.Server([asset]) as srv:
            for oi, o in enumerate(option_sets(asset.dur)):
                m = Model(asset, o)
                nrs = set()
                media = [0, asset.loop, 2 * asset.loop]
                if m.last is None:
                    media += [x // asset.loop * asset.loop for x in (3599, 3600, 86400, 360000, 1600000000, 4294967296)]
                for t in media:
                    for k in range(n):
                        nrs.add(m.first + (t - m.media0) // asset.dur + k if o.timeoffset is not None or m.media0 else m.first + t // asset.dur + k)
                if oi:
                    nrs = {x for i, x in enumerate(sorted(nrs)) if (i + oi) % (1 if core.thorough() else 3) == 0}
                for nr in sorted(nrs):
                    if nr < max(m.first, 0) or (m.last is not None and nr > m.last) or nr >= 1 << 32:
                        continue
                    for ri, rep in enumerate(asset.reps[1:]):
                        if oi and ri and (nr + ri) % 4 and not core.thorough():
                            continue
                        check_one(acc, srv, asset, ds, o, m, rep, nr)
                    if oi == 0 and nr % 3 == 0:
                        check_one(acc, srv, asset, ds, o, m, asset.reps[1], nr, mux=True)
                    if oi < 3 and nr % 5 == 0:              # other tracks with the same bytes stay as they are
                        path = "%sstx/V1/%d.m4s" % (o.prefix(), nr)
                        r = srv.get(path, float(m.avail_from(nr)) + 0.25)
                        acc.trans("video")
                        s = iso.parse_segment(r.body, asset.reps[0].trex)
                        if s.tracks[0].samples[0].data != asset.reps[0].segs[0][1][0].data:
                            acc.bad(path, "subtitle text in a video sample was changed", path=path)
            acc.trace()
        acc.sample("%d documents, part %d, looped with %d option sets" % (n, part, 9))


def main():
    n = len(docs())
    return core.run_check(PID, __name__, [("shard", (i, 24, 7)) for i in range(24)],
                          bounds="%d documents (5 hours x 3 minutes x 3 seconds x 5 formats, text times, segment numbers, decoys, sizes) x loops 0,1,2 and to 2^32 s "
                                 "x 4 packagings x 9 option sets; plain, multiplexed and chunked" % n,
                          assumptions=["one sample per segment with duration and size in tfhd; double-quoted hh:mm:ss with optional fraction or frames"])
