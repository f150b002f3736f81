"""Independent ISO-BMFF builder and strict parser (no code shared with the simulator)."""
import struct


class IsoError(ValueError):
    """Structural violation found by the strict parser."""


def u32(x):
    return struct.pack(">I", x)


def u64(x):
    return struct.pack(">Q", x)


def box(typ, *payload):
    body = b"".join(payload)
    return u32(8 + len(body)) + typ + body


def full(typ, version, flags, *payload):
    return box(typ, u32((version << 24) | flags), *payload)


# --------------------------------------------------------------------------- builder

def init_segment(track_id=1, timescale=90000, handler=b'vide', movie_ts=1000, version=0,
                 trex_dur=0, trex_size=0, trex_flags=0, mehd=False, extra_top=b""):
    """Init segment with NON-zero durations everywhere (so that zeroing them is observable)."""
    ftyp = box(b'ftyp', b'iso6', u32(0), b'iso6', b'dash')
    mat = b"".join(u32(x) for x in (0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000))
    if version == 0:
        times = u32(0x11111111) + u32(0x22222222)
        mvhd_dur, tk_dur, md_dur = u32(61000), u32(62000), u32(63000)
    else:
        times = u64(0x1111111111111111) + u64(0x2222222222222222)
        mvhd_dur, tk_dur, md_dur = u64(61000 + 2**33), u64(62000 + 2**33), u64(63000 + 2**33)
    mvhd = full(b'mvhd', version, 0, times, u32(movie_ts), mvhd_dur, u32(0x10000),
                b'\x01\x00' + b'\0' * 10, mat, b'\0' * 24, u32(track_id + 1))
    tkhd = full(b'tkhd', version, 7, times, u32(track_id), u32(0), tk_dur, b'\0' * 8,
                b'\0\0\0\0\x01\0\0\0', mat, u32(320 << 16), u32(180 << 16))
    mdhd = full(b'mdhd', version, 0, times, u32(timescale), md_dur, b'\x55\xc4\0\0')
    hdlr = full(b'hdlr', 0, 0, u32(0), handler, b'\0' * 12, b'Handler\0')
    if handler == b'vide':
        mhd = full(b'vmhd', 0, 1, b'\0' * 8)
    elif handler == b'soun':
        mhd = full(b'smhd', 0, 0, b'\0' * 4)
    else:
        mhd = full(b'nmhd', 0, 0)
    dinf = box(b'dinf', full(b'dref', 0, 0, u32(1), full(b'url ', 0, 1)))
    entry = box(b'mp4s', b'\0' * 6, b'\0\x01', b'opaque-codec-config')
    stbl = box(b'stbl', full(b'stsd', 0, 0, u32(1), entry), full(b'stts', 0, 0, u32(0)),
               full(b'stsc', 0, 0, u32(0)), full(b'stsz', 0, 0, u32(0), u32(0)),
               full(b'stco', 0, 0, u32(0)))
    minf = box(b'minf', mhd, dinf, stbl)
    trak = box(b'trak', tkhd, box(b'mdia', mdhd, hdlr, minf))
    trex = full(b'trex', 0, 0, u32(track_id), u32(1), u32(trex_dur), u32(trex_size), u32(trex_flags))
    mvex = box(b'mvex', (full(b'mehd', 0, 0, u32(64000)) if mehd else b""), trex)
    return ftyp + box(b'moov', mvhd, mvex, trak) + extra_top


class Smp:
    """One media sample."""
    __slots__ = ("data", "dur", "flags", "cto")

    def __init__(self, data, dur, flags, cto=0):
        self.data, self.dur, self.flags, self.cto = data, dur, flags, cto

    def key(self):
        return (self.data, self.dur, self.flags, self.cto)

    def __repr__(self):
        return "Smp(%r,%d,%x,%d)" % (self.data, self.dur, self.flags, self.cto)


def media_segment(seqno, track_id, tfdt, samples, *, tfdt_version=0, styp=(b'msdh', b'msix'),
                  dur_in="trun", size_in="trun", flags_in="trun", first_flags=False, cto=False,
                  sidx=None, saio=None, lmsg=False, emsg=False, default_base_moof=True,
                  trun_offset=True, order="tfdt_first", timescale=90000, senc=False, trun_version=0, sdi=None, truns=1, later_offsets=True,
                  extra=None):
    """Build a media segment. dur_in/size_in/flags_in in {"trun","tfhd","trex"}. truns: number of track runs in the fragment;
    later_offsets: whether the second and later ones carry a data offset. extra: further boxes by place (top, moof, traf0, traf1, traf2, end)."""
    ex = extra or {}
    out = b""
    if styp is not None:
        brands = list(styp) + ([b'lmsg'] if lmsg else [])
        out += box(b'styp', *brands)
    out += ex.get("top", b"")
    if emsg:
        out += full(b'emsg', 0, 0, b'urn:x\0', b'1\0', u32(1), u32(0), u32(0), u32(0), b'orig')
    tfhd_flags = 0x020000 if default_base_moof else 0
    opt = b""
    if sdi is not None:
        tfhd_flags |= 0x02
        opt += u32(sdi)
    if dur_in == "tfhd":
        tfhd_flags |= 0x08
        opt += u32(samples[0].dur)
    if size_in == "tfhd":
        tfhd_flags |= 0x10
        opt += u32(len(samples[0].data))
    if flags_in == "tfhd":
        tfhd_flags |= 0x20
        opt += u32(samples[-1].flags)
    tfhd = full(b'tfhd', 0, tfhd_flags, u32(track_id), opt)
    tfdt_box = full(b'tfdt', tfdt_version, 0, u32(tfdt) if tfdt_version == 0 else u64(tfdt))
    tr_flags = 0
    if trun_offset:
        tr_flags |= 1
    if first_flags:
        tr_flags |= 4
    if dur_in == "trun":
        tr_flags |= 0x100
    if size_in == "trun":
        tr_flags |= 0x200
    if flags_in == "trun":
        tr_flags |= 0x400
    if cto:
        tr_flags |= 0x800
    def rows(smps):
        out = b""
        for s in smps:
            if dur_in == "trun":
                out += u32(s.dur)
            if size_in == "trun":
                out += u32(len(s.data))
            if flags_in == "trun":
                out += u32(s.flags)
            if cto:
                out += u32(s.cto & 0xffffffff)
        return out
    cut = [len(samples) * i // truns for i in range(truns + 1)]
    runs = [samples[i:j] for i, j in zip(cut, cut[1:])]

    def trun_box(off):
        out = b""
        for i, smps in enumerate(runs):
            p = u32(len(smps))
            fl = tr_flags
            if i and not later_offsets:
                fl &= ~1
            if fl & 1:
                p += struct.pack(">i", off)
            if first_flags:
                p += u32(smps[0].flags)
            out += full(b'trun', trun_version, fl, p, rows(smps))
            off += sum(len(s.data) for s in smps)
        return out

    mfhd = full(b'mfhd', 0, 0, u32(seqno))
    aux = b""
    saiz_b = saio_b = lambda off: b""
    aux_entries = [struct.pack(">Q", 0xA0A0000000000000 + i) for i in range(len(samples))]
    if saio is not None:
        saio_ver, saio_fl = saio
        aux = b"".join(aux_entries)

        def saiz_b(off):
            return full(b'saiz', 0, saio_fl, (b'cenc' + u32(0)) if saio_fl & 1 else b"",
                        b'\x08', u32(len(samples)))

        def saio_b(off):
            return full(b'saio', saio_ver, saio_fl, (b'cenc' + u32(0)) if saio_fl & 1 else b"",
                        u32(truns), *[(u32 if saio_ver == 0 else u64)(off + 8 * c) for c in cut[:-1]])

    def senc_b():
        if not senc:
            return b""
        return full(b'senc', 0, 0, u32(len(samples)), b"".join(aux_entries))

    def traf(off, aoff):
        seq = {"tfdt_first": [tfhd, ex.get("traf0", b""), tfdt_box, ex.get("traf1", b""), trun_box(off)],
               "tfdt_last": [tfhd, trun_box(off), tfdt_box]}[order]
        return box(b'traf', *(seq + [ex.get("traf2", b""), saiz_b(aoff), saio_b(aoff), senc_b()]))

    moof = box(b'moof', mfhd, ex.get("moof", b""), traf(0, 0))
    mdat_payload_off = len(moof) + 8
    if saio is not None and senc:
        # aux info lives inside senc: last len(aux) bytes of moof
        aux_off = len(moof) - len(aux)
        mdat = box(b'mdat', b"".join(s.data for s in samples))
        moof = box(b'moof', mfhd, ex.get("moof", b""), traf(mdat_payload_off, aux_off))
    elif saio is not None:
        aux_off = mdat_payload_off + sum(len(s.data) for s in samples)
        mdat = box(b'mdat', b"".join(s.data for s in samples), aux)
        moof = box(b'moof', mfhd, ex.get("moof", b""), traf(mdat_payload_off, aux_off))
    else:
        mdat = box(b'mdat', b"".join(s.data for s in samples))
        moof = box(b'moof', mfhd, ex.get("moof", b""), traf(mdat_payload_off, 0))
    if sidx is not None:
        tot = sum(s.dur for s in samples)
        ept = (u32(tfdt) + u32(0)) if sidx == 0 else (u64(tfdt) + u64(0))
        out += full(b'sidx', sidx, 0, u32(track_id), u32(timescale), ept, b'\0\0\0\x01',
                    u32(len(moof) + len(mdat) + len(ex.get("end", b""))), u32(tot), u32(0x90000000))
    return out + moof + mdat + ex.get("end", b"")


# --------------------------------------------------------------------------- strict parser

CONTAINERS = {b'moov', b'trak', b'mdia', b'minf', b'stbl', b'dinf', b'mvex', b'moof', b'traf', b'edts'}


class Node:
    __slots__ = ("typ", "off", "size", "data", "kids")

    def __init__(self, typ, off, size, data, kids):
        self.typ, self.off, self.size, self.data, self.kids = typ, off, size, data, kids

    def find(self, *path):
        cur = [self]
        for p in path:
            cur = [k for c in cur for k in c.kids if k.typ == p]
        return cur

    def one(self, *path):
        got = self.find(*path)
        if len(got) != 1:
            raise IsoError("expected exactly one %s, found %d" % (b"/".join(path).decode(), len(got)))
        return got[0]

    @property
    def payload(self):
        return self.data[8:]


def parse(data, base=0):
    """Parse into a list of Node; boxes must tile the data exactly."""
    out = []
    pos = 0
    n = len(data)
    while pos < n:
        if n - pos < 8:
            raise IsoError("trailing %d bytes at offset %d" % (n - pos, base + pos))
        size, = struct.unpack(">I", data[pos:pos + 4])
        typ = data[pos + 4:pos + 8]
        if size < 8 or pos + size > n:
            raise IsoError("box %r at %d has size %d, only %d bytes left" % (typ, base + pos, size, n - pos))
        raw = data[pos:pos + size]
        kids = parse(raw[8:], base + pos + 8) if typ in CONTAINERS else []
        out.append(Node(typ, base + pos, size, raw, kids))
        pos += size
    return out


class _Rd:
    def __init__(self, b, what):
        self.b, self.p, self.what = b, 0, what

    def u(self, n):
        if self.p + n > len(self.b):
            raise IsoError("%s truncated" % self.what)
        v = int.from_bytes(self.b[self.p:self.p + n], 'big')
        self.p += n
        return v

    def s32(self):
        v = self.u(4)
        return v - (1 << 32) if v & 0x80000000 else v

    def raw(self, n):
        if self.p + n > len(self.b):
            raise IsoError("%s truncated" % self.what)
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def cstr(self):
        e = self.b.find(b'\0', self.p)
        if e < 0:
            raise IsoError("%s: unterminated string" % self.what)
        v = self.b[self.p:e]
        self.p = e + 1
        return v

    def end(self):
        if self.p != len(self.b):
            raise IsoError("%s: %d trailing bytes" % (self.what, len(self.b) - self.p))


def parse_emsg(node):
    r = _Rd(node.payload, "emsg")
    ver = r.u(1)
    r.u(3)
    if ver == 0:
        scheme, value = r.cstr(), r.cstr()
        ts, delta, dur, eid = r.u(4), r.u(4), r.u(4), r.u(4)
    elif ver == 1:
        ts, delta, dur, eid = r.u(4), r.u(8), r.u(4), r.u(4)
        scheme, value = r.cstr(), r.cstr()
    else:
        raise IsoError("emsg version %d" % ver)
    return dict(version=ver, scheme=scheme.decode(), value=value.decode(), timescale=ts, delta=delta,
                duration=dur, id=eid, data=r.b[r.p:], off=node.off)


def parse_sidx(node):
    r = _Rd(node.payload, "sidx")
    ver = r.u(1)
    r.u(3)
    d = dict(version=ver, ref_id=r.u(4), timescale=r.u(4))
    w = 4 if ver == 0 else 8
    d["ept"], d["first_offset"] = r.u(w), r.u(w)
    r.u(2)
    cnt = r.u(2)
    d["refs"] = []
    for _ in range(cnt):
        a, b, c = r.u(4), r.u(4), r.u(4)
        d["refs"].append(dict(type=a >> 31, size=a & 0x7fffffff, dur=b, sap=c))
    r.end()
    d["end"] = node.off + node.size
    return d


class Track:
    """A parsed traf with resolved samples."""


class Segment:
    """Result of parse_segment."""


def parse_segment(data, trex=None, max_moofs=1):
    """Strictly parse one media segment. trex: {track_id: (dur,size,flags)} defaults."""
    trex = trex or {}
    tops = parse(data)
    seg = Segment()
    seg.tops = [t.typ for t in tops]
    seg.brands = None
    seg.emsgs, seg.sidxs, seg.frags = [], [], []
    i = 0
    if tops and tops[0].typ == b'styp':
        p = tops[0].payload
        if len(p) < 8 or len(p) % 4:
            raise IsoError("styp payload of %d bytes" % len(p))
        seg.brands = [p[k:k + 4] for k in [0] + list(range(8, len(p), 4))]
        seg.styp_words = [p[k:k + 4] for k in range(0, len(p), 4)]
        i = 1
    moofs = [t for t in tops if t.typ == b'moof']
    if not 1 <= len(moofs) <= max_moofs:
        raise IsoError("%d moof boxes" % len(moofs))
    while i < len(tops):
        t = tops[i]
        if t.typ == b'emsg':
            if seg.frags:
                raise IsoError("emsg after first moof")
            seg.emsgs.append(parse_emsg(t))
        elif t.typ == b'sidx':
            if seg.frags:
                raise IsoError("sidx after moof")
            seg.sidxs.append(parse_sidx(t))
        elif t.typ == b'moof':
            if i + 1 >= len(tops) or tops[i + 1].typ != b'mdat':
                raise IsoError("moof not followed by mdat")
            seg.frags.append(_frag(t, tops[i + 1], data, trex))
            i += 1
        elif t.typ in (b'prft', b'free', b'skip', b'uuid'):
            pass
        else:
            raise IsoError("unexpected top-level box %r (%s)" % (t.typ, seg.tops))
        i += 1
    for s in seg.sidxs:
        start = s["end"] + s["first_offset"]
        if start != moofs[0].off:
            raise IsoError("sidx anchor %d is not the moof at %d" % (start, moofs[0].off))
        total = sum(r["size"] for r in s["refs"])
        end = max(t.off + t.size for t in tops if t.typ == b'mdat')         # boxes after it may be included or not
        if start + total not in (len(data), end):
            raise IsoError("sidx references %d bytes from %d, segment has %d" % (total, start, len(data)))
    seg.tracks = [tr for f in seg.frags for tr in f]
    seg.seqnos = [f[0].seqno for f in seg.frags]
    return seg


def parse_joined(data, trex=None, frags=1):
    """Parse a segment of exactly `frags` fragments of one track, as one track."""
    seg = parse_segment(data, trex, max_moofs=frags)
    if len(seg.frags) != frags:
        raise IsoError("%d moof boxes" % len(seg.frags))
    if frags > 1:
        join(seg)
        if len(seg.tracks) != 1:
            raise IsoError("tracks %s" % [t.track_id for t in seg.tracks])
    return seg


def join(seg):
    """Join the fragments of each track; they must follow each other without gap."""
    tracks = []
    for t in seg.tracks:
        first = next((x for x in tracks if x.track_id == t.track_id), None)
        if first is None:
            tracks.append(t)
            continue
        if t.seqno != first.seqno:
            raise IsoError("fragments numbered %d and %d" % (first.seqno, t.seqno))
        if t.tfdt != first.tfdt + first.dur:
            raise IsoError("fragment starts at %d, the previous one ends at %d" % (t.tfdt, first.tfdt + first.dur))
        first.samples += t.samples
        first.dur += t.dur
        if first.aux is not None:
            first.aux += t.aux
        if t.other != first.other:
            raise IsoError("track fragments with %s and %s" % (first.other, t.other))
    seg.tracks = tracks
    return seg


def _frag(moof, mdat, data, trex):
    r = _Rd(moof.one(b'mfhd').payload, "mfhd")
    r.u(4)
    seqno = r.u(4)
    r.end()
    trafs = moof.find(b'traf')
    if not trafs:
        raise IsoError("no traf")
    out = []
    lo, hi = mdat.off + 8, mdat.off + mdat.size
    used = []
    for traf in trafs:
        tr = Track()
        tr.seqno = seqno
        r = _Rd(traf.one(b'tfhd').payload, "tfhd")
        fl = r.u(4) & 0xffffff
        tr.track_id = r.u(4)
        base = r.u(8) if fl & 1 else moof.off if fl & 0x20000 or not out else out[-1].data_end
        if fl & 2:
            r.u(4)
        dd, ds, df = trex.get(tr.track_id, (None, None, None))
        if fl & 8:
            dd = r.u(4)
        if fl & 0x10:
            ds = r.u(4)
        if fl & 0x20:
            df = r.u(4)
        r.end()
        r = _Rd(traf.one(b'tfdt').payload, "tfdt")
        ver = r.u(1)
        r.u(3)
        tr.tfdt_version = ver
        tr.tfdt = r.u(8 if ver else 4)
        r.end()
        truns = traf.find(b'trun')
        if not truns:
            raise IsoError("no trun")
        tr.samples = []
        tr.runs = []            # number of samples in each run
        pos = base
        for trun in truns:
            r = _Rd(trun.payload, "trun")
            v = r.u(1)
            fl = r.u(3)
            cnt = r.u(4)
            if fl & 1:
                pos = base + r.s32()
            first = r.u(4) if fl & 4 else None
            tr.runs.append(cnt)
            run_start = pos
            if trun is truns[0]:
                tr.data_start = pos
            for k in range(cnt):
                dur = r.u(4) if fl & 0x100 else dd
                size = r.u(4) if fl & 0x200 else ds
                flags = r.u(4) if fl & 0x400 else (first if (k == 0 and first is not None) else df)
                cto = 0
                if fl & 0x800:
                    cto = r.s32() if v else r.u(4)
                if size is None or dur is None:
                    raise IsoError("sample size/duration undefined")
                if pos < lo or pos + size > hi:
                    raise IsoError("sample %d of track %d at [%d,%d) outside mdat [%d,%d)" % (
                        k, tr.track_id, pos, pos + size, lo, hi))
                tr.samples.append(Smp(data[pos:pos + size], dur, flags, cto))
                pos += size
            r.end()
            used.append((run_start, pos))
        tr.data_end = pos
        tr.dur = sum(s.dur for s in tr.samples)
        tr.aux = None
        saio = traf.find(b'saio')
        if saio:
            saiz = traf.one(b'saiz')
            r = _Rd(saiz.payload, "saiz")
            f = r.u(4) & 0xffffff
            if f & 1:
                r.raw(8)
            dsz = r.u(1)
            n = r.u(4)
            sizes = [dsz] * n if dsz else [r.u(1) for _ in range(n)]
            r.end()
            r = _Rd(saio[0].payload, "saio")
            vf = r.u(4)
            if vf & 1:
                r.raw(8)
            ec = r.u(4)
            offs = [r.u(8 if vf >> 24 else 4) for _ in range(ec)]
            r.end()
            if ec == 1:
                p = base + offs[0]
                tr.aux = []
                for s in sizes:
                    if p + s > len(data):
                        raise IsoError("aux info outside the segment")
                    tr.aux.append(data[p:p + s])
                    p += s
            else:
                if ec != len(tr.runs) or sum(tr.runs) != len(sizes):
                    raise IsoError("%d saio entries for %d runs" % (ec, len(tr.runs)))
                tr.aux, left = [], list(sizes)
                for o, cnt in zip(offs, tr.runs):
                    p = base + o
                    for _ in range(cnt):
                        s = left.pop(0)
                        if p + s > len(data):
                            raise IsoError("aux info outside the segment")
                        tr.aux.append(data[p:p + s])
                        p += s
        tr.other = [k.typ for k in traf.kids if k.typ not in (b'tfhd', b'tfdt', b'trun')]
        tr.other_data = {k.typ: k.data for k in traf.kids if k.typ not in (b'tfhd', b'tfdt', b'trun', b'saio')}
        out.append(tr)
    used.sort()
    for a, b in zip(used, used[1:]):
        if a[1] > b[0]:
            raise IsoError("track data ranges overlap: %s %s" % (a, b))
    return out


def parse_init(data):
    """Return dict of the fields of interest of an init segment (single or multi track)."""
    tops = parse(data)
    moov = [t for t in tops if t.typ == b'moov']
    if len(moov) != 1:
        raise IsoError("moov count %d" % len(moov))
    moov = moov[0]

    def dur_of(node, v0, v1):
        v = node.data[8]
        a, w = (v1, 8) if v == 1 else (v0, 4)
        return int.from_bytes(node.data[a:a + w], 'big')

    out = dict(tops=[t.typ for t in tops], mvhd_dur=dur_of(moov.one(b'mvhd'), 24, 32), tracks=[], trex={})
    for trak in moov.find(b'trak'):
        tk = trak.one(b'tkhd')
        v = tk.data[8]
        tid = int.from_bytes(tk.data[28:32] if v else tk.data[20:24], 'big')
        md = trak.one(b'mdia', b'mdhd')
        v = md.data[8]
        ts = int.from_bytes(md.data[28:32] if v else md.data[20:24], 'big')
        hd = trak.one(b'mdia', b'hdlr').data[16:20]
        out["tracks"].append(dict(id=tid, tk_dur=dur_of(tk, 28, 36), md_dur=dur_of(md, 24, 32), timescale=ts,
                                  handler=hd, raw=trak.data))
    for tx in moov.find(b'mvex', b'trex'):
        r = _Rd(tx.payload, "trex")
        r.u(4)
        tid = r.u(4)
        r.u(4)
        out["trex"][tid] = (r.u(4), r.u(4), r.u(4))
    return out


def _styp(self):
    return getattr(self, "styp_words", None)


Segment.styp_words_or_none = _styp
