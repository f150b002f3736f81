"""Synthetic VoD assets, generated independently of the simulator's own tools."""
import os
import struct
from fractions import Fraction
from . import iso
from .iso import Smp


class Rep:
    def __init__(self, rid, ctype, timescale, track_id, segs, build=None, init=None, handler=None, path=None, ext=".m4s"):
        self.id, self.ctype, self.timescale, self.track_id = rid, ctype, timescale, track_id
        self.segs = segs            # list of (start_ticks, [Smp])
        self.build = build or {}    # kwargs of iso.media_segment
        self.init_kw = init or {}
        self.handler = handler or {'video': b'vide', 'audio': b'soun', 'subtitles': b'subt', 'image': b'pict'}[ctype]
        self.ext = ext
        self.path = path or rid

    def dur(self, k):
        return sum(s.dur for s in self.segs[k][1])

    @property
    def trex(self):
        return {self.track_id: (self.init_kw.get("trex_dur", 0), self.init_kw.get("trex_size", 0),
                                self.init_kw.get("trex_flags", 0))}

    def init_bytes(self):
        return iso.init_segment(self.track_id, self.timescale, self.handler, **self.init_kw)

    def seg_bytes(self, k, number):
        start, samples = self.segs[k]
        if self.ext == ".jpg":
            return samples[0].data
        kw = dict(self.build)
        if kw.get("dur_in", "trun") != "trun":
            assert len({s.dur for s in samples}) == 1
        frags = kw.pop("frags", 1)
        out = b""
        for i in range(frags):
            part = samples[len(samples) * i // frags:len(samples) * (i + 1) // frags]
            out += iso.media_segment(number, self.track_id, start, part, timescale=self.timescale, **kw)
            kw.update(styp=None, sidx=None, emsg=False)
            start += sum(s.dur for s in part)
        return out

    @property
    def frags(self):
        return self.build.get("frags", 1)


class Asset:
    def __init__(self, name, dur, n, first, reps, mpd_kw=None, tsbd=300, version="1.1"):
        self.name, self.dur, self.n, self.first, self.reps = name, dur, n, first, reps
        self.mpd_kw = mpd_kw or {}
        self.tsbd = tsbd
        self.version = version
        self.by_id = {r.id: r for r in reps}
        self.loop = dur * n

    def rep(self, rid):
        return self.by_id[rid]

    def types(self):
        out = []
        for r in self.reps:
            if r.ctype not in out:
                out.append(r.ctype)
        return out

    def entries(self, ctype):
        """Run-length coded (start_nr, repeats, start_time, duration) entries of the first rep."""
        rep = [r for r in self.reps if r.ctype == ctype][0]
        out = []
        for k, (start, _) in enumerate(rep.segs):
            d = rep.dur(k)
            if out and out[-1][3] == d and start == out[-1][2] + (out[-1][1] + 1) * d:
                out[-1][1] += 1
            else:
                out.append([self.first + k, 0, start, d])
        return out

    def mpd(self, manifest="Manifest.mpd"):
        kw = self.mpd_kw
        sets = ""
        for ct in self.types():
            reps = [r for r in self.reps if r.ctype == ct]
            act = {"subtitles": "text"}.get(ct, ct)
            act = kw.get("content_types", {}).get(ct, act)
            mime = {"video": "video/mp4", "audio": "audio/mp4", "subtitles": "application/mp4", "image": "image/jpeg"}[ct]
            media = "$RepresentationID$/$Number$%s" % reps[0].ext
            ts = kw.get("tmpl_ts", 1)
            tmpl = '<SegmentTemplate startNumber="%d" %s %sduration="%d" media="%s"/>' % (
                self.first, 'initialization="$RepresentationID$/init.mp4"' if reps[0].ext == ".m4s" else "",
                'timescale="%d" ' % ts if ts != 1 else "", self.dur * ts, media)
            rr = "".join('<Representation id="%s" codecs="xxxx" bandwidth="%d"%s/>' % (
                r.id, 1000 * (i + 1), ' width="320" height="180"' if ct == "video" else "") for i, r in enumerate(reps))
            sets += ('<AdaptationSet contentType="%s" mimeType="%s" segmentAlignment="true" startWithSAP="1">\n%s\n%s\n'
                     '</AdaptationSet>\n' % (act, mime, tmpl, rr))
        head = ('<?xml version="1.0" encoding="utf-8"?>\n<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" '
                'profiles="%s" maxSegmentDuration="PT%dS" minBufferTime="PT2S" type="static" '
                'mediaPresentationDuration="PT%dS">\n' % (
                    kw.get("profiles", "urn:mpeg:dash:profile:isoff-live:2011,urn:com:dashif:dash264"),
                    self.dur, self.loop))
        pi = "<ProgramInformation><Title>T</Title></ProgramInformation>\n" * kw.get("prog_info", 1)
        bu = "<BaseURL>http://vod.example.com/x/</BaseURL>\n" if kw.get("base_url") else ""
        return head + pi + bu + '<Period%s>\n' % kw.get("period_attrs", ' id="precambrian"') + sets + "</Period>\n</MPD>\n"

    def write(self, content_root, cfg_root):
        base = os.path.join(content_root, self.name)
        os.makedirs(base)
        with open(os.path.join(base, "Manifest.mpd"), "w") as f:
            f.write(self.mpd())
        self.raw = {}
        for r in self.reps:
            d = os.path.join(base, r.path)
            os.makedirs(d, exist_ok=True)
            if r.ext == ".m4s":
                with open(os.path.join(d, "init.mp4"), "wb") as f:
                    f.write(r.init_bytes())
            for k in range(len(r.segs)):
                with open(os.path.join(d, "%d%s" % (self.first + k, r.ext)), "wb") as f:
                    f.write(r.seg_bytes(k, self.first + k))
        if cfg_root is None:
            return
        lines = ["[General]", "version = %s" % self.version, "", "[Setup]",
                 "first_segment_in_loop = %d" % self.first, "nr_segments_in_loop = %d" % self.n,
                 "segment_duration_s = %d" % self.dur, "default_tsbd_secs = %d" % self.tsbd, ""]
        for ct in self.types():
            reps = [r for r in self.reps if r.ctype == ct]
            lines += ["[%s]" % ct, "representations = %s" % ", ".join(r.id for r in reps),
                      "timescale = %d" % reps[0].timescale]
            if self.version == "1.1":
                dat = "%s_%s.dat" % (self.name, ct)
                lines += ["total_duration = %d" % (reps[0].segs[self.n - 1][0] + reps[0].dur(self.n - 1) - reps[0].segs[0][0]), "dat_file = %s" % dat]
                with open(os.path.join(cfg_root, dat), "wb") as f:
                    for e in self.entries(ct):
                        f.write(struct.pack("HHII", *e))
            lines.append("")
        with open(os.path.join(cfg_root, self.name + ".cfg"), "w") as f:
            f.write("\n".join(lines))


# ------------------------------------------------------------------ segment tables

def even_segs(tag, n, seg_ticks, per_seg, size=5, cto=False):
    """n equal segments with per_seg equal samples."""
    out = []
    d = seg_ticks // per_seg
    assert d * per_seg == seg_ticks
    for k in range(n):
        smps = []
        for i in range(per_seg):
            data = ("%s.%d.%d." % (tag, k, i)).encode()
            data = (data * 8)[:size + (i % 3 if cto is not None else 0)] if size else data
            data = ("%s.%d.%d" % (tag, k, i)).encode() + b"x" * ((i + k) % 3)
            smps.append(Smp(data, d, 0x02000000 if i == 0 else 0x01010000, (d * (i % 2)) if cto else 0))
        out.append((k * seg_ticks, smps))
    return out


def framed_segs(tag, n, dur, timescale, frame, fixed_size=None):
    """Audio-like: segment k ends at the frame boundary closest to (k+1)*dur."""
    total = n * dur * timescale
    assert total % frame == 0
    bounds = [0]
    for k in range(1, n):
        bounds.append(round(Fraction(k * dur * timescale, frame)))
    bounds.append(total // frame)
    out = []
    for k in range(n):
        smps = []
        for i in range(bounds[k], bounds[k + 1]):
            data = ("%s%d." % (tag, i)).encode()
            if fixed_size:
                data = (data + b"#" * fixed_size)[:fixed_size]
            smps.append(Smp(data, frame, 0x02000000))
        out.append((bounds[k] * frame, smps))
    return out


def ttml_doc(k, dur):
    s = k * dur

    def t(x):
        return "%02d:%02d:%02d.000" % (x // 3600, (x // 60) % 60, x % 60)
    return ('<?xml version="1.0"?><tt xmlns="http://www.w3.org/ns/ttml"><body><div>'
            '<p begin="%s" end="%s">en : %s</p><p begin="%s" end="%s">Segment # %d</p>'
            '</div></body></tt>' % (t(s), t(s + 1), t(s), t(s + 1), t(s + dur), k + 1)).encode()


def make_sq(name="sq", dur=2, n=4, first=1, **kw):
    v = lambda i: Rep("V%d" % i, "video", 90000, 1, even_segs("V%d" % i, n, dur * 90000, 4, cto=True), dict(cto=True))
    a = Rep("A1", "audio", 48000, 2, framed_segs("A", n, dur, 48000, 3072), dict(tfdt_version=0))
    return Asset(name, dur, n, first, [a, v(1), v(2)], **kw)


def make_simple(name, dur, n, first=1, vts=1000, ats=1000, **kw):
    """Small: 2 video samples, 2 audio samples per segment."""
    v = Rep("V1", "video", vts, 1, even_segs("v", n, dur * vts, 2))
    a = Rep("A1", "audio", ats, 2, even_segs("a", n, dur * ats, 2))
    return Asset(name, dur, n, first, [v, a], **kw)


def make_odd(name="odd"):
    n, dur, first = 5, 3, 5
    v = Rep("vid", "video", 12800, 1, even_segs("v", n, dur * 12800, 3),
            dict(tfdt_version=1, dur_in="tfhd", first_flags=True, flags_in="tfhd", sidx=0, default_base_moof=False))
    a = Rep("aud", "audio", 44100, 7, framed_segs("a", n, dur, 44100, 10500, fixed_size=9),
            dict(tfdt_version=1, styp=None, dur_in="trex", size_in="tfhd", flags_in="trex", sidx=1),
            dict(version=1, trex_dur=10500, trex_size=9, trex_flags=0x02000000, mehd=False))
    return Asset(name, dur, n, first, [v, a], mpd_kw=dict(prog_info=0, base_url=True))


def make_enc(name="enc"):
    n, dur, first = 3, 2, 0
    v = Rep("V", "video", 90000, 1, even_segs("v", n, dur * 90000, 2), dict(saio=(0, 0), senc=True))
    w = Rep("W", "video", 90000, 1, even_segs("w", n, dur * 90000, 2), dict(saio=(1, 1)))
    a = Rep("A", "audio", 48000, 2, even_segs("a", n, dur * 48000, 2),
            dict(saio=(0, 1), dur_in="trex", size_in="trun"), dict(trex_dur=48000))
    return Asset(name, dur, n, first, [v, w, a])


def make_runs(name="runs"):
    """Several track runs in a fragment, also with auxiliary information for each of them."""
    n, dur, first = 3, 2, 1
    v = Rep("V", "video", 90000, 1, even_segs("v", n, dur * 90000, 4, cto=True), dict(truns=2, cto=True, later_offsets=False))
    w = Rep("W", "video", 90000, 1, even_segs("w", n, dur * 90000, 5), dict(truns=3, saio=(0, 0)))
    x = Rep("X", "video", 90000, 1, even_segs("x", n, dur * 90000, 4), dict(truns=2, saio=(1, 1), senc=True, styp=None))
    a = Rep("A", "audio", 48000, 2, even_segs("a", n, dur * 48000, 3), dict(truns=2, dur_in="tfhd", saio=(0, 1)))
    b = Rep("B", "audio", 48000, 2, even_segs("b", n, dur * 48000, 6), dict(truns=4, dur_in="trex", tfdt_version=1, later_offsets=False), dict(trex_dur=dur * 8000))
    return Asset(name, dur, n, first, [v, w, x, a, b])


def make_frags(name="frags"):
    """Several fragments (moof + mdat) in a segment."""
    n, dur, first = 3, 2, 1
    v = Rep("V", "video", 90000, 1, even_segs("v", n, dur * 90000, 4, cto=True), dict(frags=2, cto=True, emsg=True))
    w = Rep("W", "video", 90000, 1, even_segs("w", n, dur * 90000, 5), dict(frags=3, styp=None, tfdt_version=1))
    x = Rep("X", "video", 90000, 1, even_segs("x", n, dur * 90000, 6), dict(frags=2, truns=2, saio=(0, 0), dur_in="tfhd"))
    a = Rep("A", "audio", 48000, 2, even_segs("a", n, dur * 48000, 3), dict(frags=3, dur_in="trex", saio=(1, 0), senc=True), dict(trex_dur=dur * 16000))
    return Asset(name, dur, n, first, [v, w, x, a])


UUID = iso.box(b'uuid', bytes(range(0x30, 0x40)), b'moof mdat tfdt payload')
PRFT = iso.full(b'prft', 1, 0, iso.u32(1), iso.u64(0xE000000000000000), iso.u64(123456789))
SDTP = iso.full(b'sdtp', 0, 0, b'\x10\x20')
SBGP = iso.full(b'sgpd', 1, 0, b'rap ', iso.u32(1), iso.u32(1), b'\0') + iso.full(b'sbgp', 0, 0, b'rap ', iso.u32(1), iso.u32(2), iso.u32(1))
SUBS = iso.full(b'subs', 0, 0, iso.u32(1), iso.u32(1), struct.pack(">H", 0))
EMSG = (iso.full(b'emsg', 1, 0, iso.u32(1000), iso.u64(2 ** 40 + 5), iso.u32(7), iso.u32(2 ** 32 - 1), b'urn:x:\xc3\xa5\0', b'\0', bytes(range(128, 256)))
        + iso.full(b'emsg', 0, 0, b'urn:y\0', b'\0', iso.u32(1000), iso.u32(1), iso.u32(7), iso.u32(3)))
FREE = iso.box(b'free', b'trun') + iso.box(b'skip')


def make_boxes(name="boxes"):
    """Boxes which real packagers add to segments and fragments."""
    n, dur, first = 3, 2, 1
    v = Rep("V", "video", 90000, 1, even_segs("v", n, dur * 90000, 2), dict(extra=dict(top=PRFT, moof=FREE, traf2=SDTP + SBGP)))
    w = Rep("W", "video", 90000, 1, even_segs("w", n, dur * 90000, 2), dict(extra=dict(top=UUID + FREE, traf1=UUID, traf2=SUBS + FREE), sidx=1, tfdt_version=1))
    x = Rep("X", "video", 90000, 1, even_segs("x", n, dur * 90000, 2), dict(extra=dict(moof=UUID, traf0=SDTP + FREE), saio=(0, 0), senc=True, styp=None))
    y = Rep("Y", "video", 90000, 1, even_segs("y", n, dur * 90000, 2), dict(extra=dict(top=EMSG + FREE, end=FREE + UUID, traf0=UUID), sidx=0, emsg=True))
    a = Rep("A", "audio", 48000, 2, even_segs("a", n, dur * 48000, 3), dict(extra=dict(top=FREE, traf2=UUID), dur_in="trex"), dict(trex_dur=dur * 16000))
    b = Rep("B", "audio", 48000, 2, even_segs("b", n, dur * 48000, 2), dict(extra=dict(top=EMSG, moof=UUID, traf1=SBGP, traf2=UUID, end=FREE), saio=(1, 1)))
    return Asset(name, dur, n, first, [v, w, x, y, a, b])


def make_late(name="late"):
    """Media that starts a little after time 0 (as with encoder delay)."""
    n, dur, first = 3, 2, 1
    v = Rep("V1", "video", 90000, 1, [(t + 3600, s) for t, s in even_segs("v", n, dur * 90000, 2)])
    a = Rep("A1", "audio", 1000, 2, [(t + 90, s) for t, s in even_segs("a", n, dur * 1000, 4)])
    return Asset(name, dur, n, first, [v, a])


def make_dev(name, v_end, a_end):
    """Media that is not exactly as long as the loop (deviations in ms of video and audio), as with most real content."""
    n, dur, first = 3, 2, 1
    v = even_segs("v", n, dur * 90000, 2)
    v[-1][1][-1].dur += 90 * v_end
    ends = [0, 2010, 3990, 6000 + a_end]
    a = [(s, [Smp(b"%s%d" % (b"a" * i, k), (e - s) // 2 if i else e - s - (e - s) // 2, 0x02000000) for i in range(2)])
         for k, (s, e) in enumerate(zip(ends, ends[1:]))]
    return Asset(name, dur, n, first, [Rep("V1", "video", 90000, 1, v), Rep("A1", "audio", 1000, 2, a)])


def make_hns(name):
    """Timescales of 10 MHz and 1 GHz with odd times: live decode times above 2^53."""
    n, dur, first = 3, 2, 1
    reps = []
    for i, (ct, ts, cuts) in enumerate([("video", 10000000, (0, 19999999, 40033333, 60000000)), ("audio", 1000000000, (0, 2010666667, 3989333333, 6000000000))]):
        segs = [(a, [Smp(b"%s%d" % (ct[:1].encode(), k), (b - a) // 2, 0x02000000), Smp(b"%s%d+" % (ct[:1].encode() * 3, k), b - a - (b - a) // 2, 0x01010000)])
                for k, (a, b) in enumerate(zip(cuts, cuts[1:]))]
        reps.append(Rep(ct[0].upper() + "1", ct, ts, i + 1, segs, dict(tfdt_version=i)))
    return Asset(name, dur, n, first, reps)


def make_holes(name):
    """Segments on the grid whose media is up to 90 ms shorter (gap) or longer (overlap) than the distance of their times."""
    n, dur, first = 5, 2, 3
    reps = []
    for i, (ct, ts, devs) in enumerate([("video", 90000, (0, 2700, -3600, 0, 0)), ("audio", 1000, (-15, -15, 90, 0, -60))]):
        segs = [(k * dur * ts, [Smp(b"%s%d" % (ct[:1].encode(), k), ts, 0x02000000), Smp(b"%s%d+" % (ct[:1].encode() * 3, k), ts + e, 0x01010000)])
                for k, e in enumerate(devs)]
        reps.append(Rep(ct[0].upper() + "1", ct, ts, i + 1, segs))
    return Asset(name, dur, n, first, reps)


def make_dev_one(name):
    """A single segment, longer (video) and shorter (audio) than the loop."""
    v = [(0, [Smp(b"v0", 90000, 0x02000000), Smp(b"v1", 90000 + 3600, 0x01010000)])]
    a = [(0, [Smp(b"a0", 1000, 0x02000000), Smp(b"a1", 930, 0x02000000)])]
    return Asset(name, 2, 1, 4, [Rep("V1", "video", 90000, 1, v), Rep("A1", "audio", 1000, 2, a)])


def make_stp(name="stp"):
    n, dur, first = 4, 2, 1
    v = Rep("V1", "video", 90000, 1, even_segs("v", n, dur * 90000, 2))
    a = Rep("A1", "audio", 48000, 2, even_segs("a", n, dur * 48000, 2))
    segs = []
    for k in range(n):
        segs.append((k * dur * 1000, [Smp(ttml_doc(k, dur), dur * 1000, 0x02000000)]))
    s = Rep("S1", "subtitles", 1000, 3, segs, dict(dur_in="tfhd", size_in="tfhd", flags_in="tfhd"))
    return Asset(name, dur, n, first, [v, a, s])


def make_thumb(name="thumb"):
    n, dur, first = 3, 2, 2
    v = Rep("V1", "video", 90000, 1, even_segs("v", n, dur * 90000, 2))
    a = Rep("A1", "audio", 48000, 2, even_segs("a", n, dur * 48000, 2))
    t = Rep("thumbs", "image", 1, 0, [(k * dur, [Smp(b"\xff\xd8JPEG%d\xff\xd9" % k, dur, 0)]) for k in range(n)],
            ext=".jpg")
    return Asset(name, dur, n, first, [v, a, t])


def make_nine(name="nine"):
    """Irregular audio (alternating durations, several run-length entries), regular video, odd first number."""
    n, dur, first = 9, 1, 9
    v = Rep("V1", "video", 25, 1, even_segs("v", n, dur * 25, 5))
    a = Rep("A1", "audio", 1000, 2, framed_segs("a", n, dur, 1000, 120))
    return Asset(name, dur, n, first, [v, a])


def make_cut(name="cut", n=6):
    """make_nine with a configuration edited to include the first n segments only (the .dat files are those of the whole asset)."""
    a = make_nine(name)
    a.n, a.loop = n, n * a.dur
    return a


def make_cue(name="cue"):
    """A configuration that includes the first segments only, and a different segment duration starts right behind them."""
    n, dur, first = 5, 2, 3
    v = Rep("V1", "video", 90000, 1, even_segs("v", n, dur * 90000, 2))
    ends = [0, 2000, 4000, 5990, 8000, 10000]
    a = Rep("A1", "audio", 1000, 2, [(s, [Smp(b"a%d" % k, e - s, 0x02000000)]) for k, (s, e) in enumerate(zip(ends, ends[1:]))])
    a = Asset(name, dur, n, first, [v, a])
    a.n, a.loop = 2, 2 * dur
    return a


def make_big(name="big"):
    """Segments above 2^16, 2^20 and 2^24 bytes, and with 300 samples."""
    n, dur, first = 2, 2, 1

    def segs(tag, ts, per, big):
        out = []
        for k in range(n):
            smps = []
            for i in range(per):
                data = ("%s.%d.%d." % (tag, k, i)).encode()
                if i == 1:
                    data = (data * (big // len(data) + 1))[:big + k]
                smps.append(Smp(data, dur * ts // per, 0x02000000 if i == 0 else 0x01010000))
            out.append((k * dur * ts, smps))
        return out
    return Asset(name, dur, n, first, [Rep("V1", "video", 90000, 1, segs("v", 90000, 300, 1 << 20)), Rep("V2", "video", 90000, 1, segs("w", 90000, 2, 1 << 24)),
                                       Rep("A1", "audio", 48000, 2, segs("a", 48000, 4, 1 << 16))])
