"""C13: initialization segments."""
import itertools
import os
from .. import assets, env, model, core
from ..iso import box, full, u32, u64

PID = "C13"
MAT = b"".join(u32(x) for x in (0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000))


def layout(mv, tk, md, mehd, order, extra, dur, ts, handler, zero=False):
    """Init segment bytes; zero=True gives the expected live version."""
    def times(v):
        return (u64(0x1111111111) + u64(0x2222222222)) if v else (u32(0x11111111) + u32(0x22222222))

    def dd(v, x):
        if zero:
            x = 0
        return u64(x if dur != "max" else (0 if zero else 2**64 - 1)) if v else u32((x if dur != "max" else (0 if zero else 2**32 - 1)) & 0xffffffff)
    big = {"small": 0, "big": 2**33, "max": 0}[dur]
    mvhd = full(b'mvhd', mv, 0, times(mv), u32(1000), dd(mv, 61000 + big), u32(0x10000), b'\x01\x00' + b'\7' * 10, MAT, b'\5' * 24, u32(9))
    tkhd = full(b'tkhd', tk, 7, times(tk), u32(3), u32(0), dd(tk, 62000 + big), b'\1' * 8, b'\0\1\0\2\x01\0\0\0', MAT, u32(320 << 16), u32(180 << 16))
    mdhd = full(b'mdhd', md, 0, times(md), u32(ts), dd(md, 63000 + big), b'\x55\xc4\0\0')
    hdlr = full(b'hdlr', 0, 0, u32(0), handler, b'\0' * 12, b'Hmvhd tkhd mdhd\0')
    minf = box(b'minf', full(b'vmhd', 0, 1, b'\1' * 8), box(b'stbl', full(b'stsd', 0, 0, u32(1), box(b'avc1', b'\3' * 90)),
                                                          full(b'stts', 0, 0, u32(0))))
    edts = box(b'edts', full(b'elst', 1, 0, u32(1), u64(62000), u64(1024), u32(0x10000))) if "edts" in extra else b""
    trak = box(b'trak', tkhd, edts, box(b'mdia', mdhd, hdlr, minf), *([box(b'udta', b'\0' * 5)] if "tudta" in extra else []))
    trex = full(b'trex', 0, 0, u32(3), u32(1), u32(512), u32(7), u32(0x10000))
    mh = b"" if mehd is None else full(b'mehd', mehd, 0, dd(mehd, 64000 + big))
    mvex = box(b'mvex', *([mh, trex] if order != 2 else [trex, mh]))
    udta = box(b'udta', box(b'meta', b'\0' * 12)) if "udta" in extra else b""
    moov = box(b'moov', mvhd, *([mvex, trak, udta] if order == 0 else [trak, udta, mvex]))
    ftyp = box(b'ftyp', b'iso6', u32(1), b'iso6', b'dash')
    return (b"" if "noftyp" in extra else ftyp) + (box(b'free', b'moov' * 3) if "free" in extra else b"") + moov + \
        (box(b'free', b'xx') if "tail" in extra else b"")


def layouts():
    ex = [(), ("udta",), ("edts", "tudta"), ("free",), ("tail", "udta", "edts"), ("noftyp",)]
    return list(itertools.product((0, 1), (0, 1), (0, 1), (None, 0, 1), (0, 1, 2), ex, ("small", "big", "max"),
                                  ((90000, b'vide'), (48000, b'soun'), (1, b'subt'))))


def content_shard(acc, part, parts):
    asset = assets.make_stp()
    with env.Server([asset]) as srv:
        sub = {b'vide': "V1", b'soun': "A1", b'subt': "S1"}
        for i, (mv, tk, md, mehd, order, extra, dur, (ts, handler)) in enumerate(layouts()):
            if i % parts != part:
                continue
            name = "init%d.mp4" % i
            rid = sub[handler]
            with open(os.path.join(srv.content, "stp", rid, name), "wb") as f:
                f.write(layout(mv, tk, md, mehd, order, extra, dur, ts, handler))
            want = layout(mv, tk, md, mehd, order, extra, dur, ts, handler, zero=True)
            for pref in ("", "start_600/snr_3/chunkdur_1/"):
                acc.state()
                path = "%sstp/%s/%s" % (pref, rid, name)
                r = srv.get(path, 1600000000.5)
                acc.trans("content")
                if r.status != 200 or r.body != want:
                    pos = next((k for k, (a, b) in enumerate(zip(r.body, want)) if a != b), min(len(r.body), len(want)))
                    acc.bad("layout%s%s" % (pref, (mv, tk, md, mehd, order, extra, dur, ts)),
                            "init segment (versions mvhd/tkhd/mdhd/mehd %s, order %s, extra %s): status %s, %d bytes (expected %d), first difference at %d" % (
                                (mv, tk, md, mehd), order, extra, r.status, len(r.body), len(want), pos), path=path)
        acc.trace()
        acc.sample("part %d of %d init layouts, byte-exact" % (part, len(layouts())))


def avail_shard(acc, part, parts):
    a1, a2 = assets.make_stp(), assets.make_simple("odd", 3, 5, first=5)
    with env.Server([a1, a2]) as srv:
        todo = [(a, st, n, x) for a in (a1, a2) for st in (None, 60, 1500000000, 1500000001) for n in (None, 0, 1, 7, 3600)
                for x in ("", "snr_5/", "ato_1/", "tsbd_0/", "dur_60/", "dur_12/tsbd_1/", "timeoffset_30/", "segtimeline_1/", "mup_2/")]
        for i, (a, st, n, x) in enumerate(todo):
            if i % parts != part:
                continue
            if st is None and x.startswith("dur"):
                continue
            pref = ("start_%d/" % st if st is not None else "") + ("init_%d/" % n if n is not None else "") + x
            ast = (st // a.dur * a.dur) if st is not None else 0
            lim = ast - (n or 0)
            for t in (-3600, -7, -2, -1, -1 / 64, 0, 1 / 64, 1, a.dur, 7, 3600, 10000):
                now = lim + t
                if now < 0:
                    continue
                for rep in a.reps:
                    path = "%s%s/%s/init.mp4" % (pref, a.name, rep.id)
                    acc.state()
                    r = srv.get(path, now)
                    acc.trans("available" if t >= 0 else "refused")
                    if (r.status == 200) != (t >= 0) or r.status not in (200, 404):
                        acc.bad("%s@%s" % (path, now), "init segment %s s after its availability start: %s %r" % (t, r.status, r.body[:80]),
                                path=path, now=now)
        for M in (1, 3, 10):
            for sec in range(60 * M):
                now = 1500000000 // 3600 * 3600 + sec
                if (i + sec) % parts != part:
                    continue
                ok = sec * 10 < 9 * 60 * M
                path = "modulo_%d/stp/V1/init.mp4" % M
                acc.state()
                r = srv.get(path, now)
                acc.trans("modulo")
                if (r.status == 200) != ok:
                    acc.bad("%s@%s" % (path, now), "init of modulo session: %s" % r.status, path=path, now=now)
        acc.trace()
        acc.sample("availability of init segments around AST - init_N, part %d" % part)


def main():
    jobs = [("content_shard", (i, 8)) for i in range(8)] + [("avail_shard", (i, 8)) for i in range(8)]
    return core.run_check(PID, __name__, jobs,
                          bounds="%d box-version/order/extra-box layouts, byte exact; 2 assets x AST x init_N x 9 option sets x 12 instants; "
                                 "every second of modulo sessions" % len(layouts()))
