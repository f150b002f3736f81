"""C27: the closed-caption inserter: every output segment against one rebuilt with the expected samples."""
import itertools
import os
import runpy
import shutil
import sys
import tempfile
import warnings
from .. import assets, core, env, iso
from ..iso import Smp

PID = "C27"
DIRECT_API = True


def insert(mpd, scc, out, extra=()):
    """Run the inserter as a program; None or a description of the failure."""
    env.setup()
    argv = sys.argv
    sys.argv = ["cc_inserter.py"] + [str(x) for x in extra] + [mpd, scc, out]
    try:
        with env.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("dashlivesim.cc_inserter.cc_inserter", run_name="__main__")
    except SystemExit as e:
        return "exit %s" % e.code if e.code else None
    except env.Hang:
        raise
    except BaseException as e:      # noqa
        return repr(e)
    finally:
        sys.argv = argv
    return None


# ------------------------------------------------------------------ model

def when(tc):
    """Milliseconds of a time code hh:mm:ss:ff at 29.97 frames per second."""
    h, m, s, f = (int(x) for x in tc.split(":"))
    return ((h * 60 + m) * 60 + s) * 1000 + min(f * 100000 // 2997, 999)


def nalu(typ, body=b"", ref=3):
    d = bytes([ref << 5 | typ]) + body
    return iso.u32(len(d)) + d


def caption_nal(words, field):
    cc = b"".join(bytes([0xfb + field]) + bytes.fromhex(w.zfill(4)) for w in words)
    sei = b"\xb5\0\x31GA94\x03" + bytes([0xc0 + len(words), 0xff]) + cc + b"\xff"
    return iso.u32(len(sei) + 4) + b"\x66\x04" + bytes([len(sei)]) + sei + b"\x80"


def with_captions(data, nals):
    """Sample with the captions in front of the first slice."""
    pos = 0
    while pos < len(data) and data[pos + 4] & 31 >= 6:
        pos += 4 + int.from_bytes(data[pos:pos + 4], "big")
    return data[:pos] + nals + data[pos:]


def expected(rep, lines, field):
    """For each segment: samples with captions inserted, or None when it has none."""
    ts, out = rep.timescale, []
    for start, samples in rep.segs:
        t, new, hit = start, [], False
        for s in samples:
            mine = [w for tc, w in lines if t * 1000 <= when(tc) * ts < (t + s.dur) * 1000]
            nals = b"".join(caption_nal(w[i:i + 31], field) for w in mine for i in range(0, len(w), 31))
            hit |= bool(nals)
            new.append(Smp(with_captions(s.data, nals), s.dur, s.flags, s.cto))
            t += s.dur
        out.append(new if hit else None)
    return out


def scc_text(lines, sep="\n", head="Scenarist_SCC V1.0\n\n"):
    return head + "".join("%s %s\n%s" % (tc, " ".join(w), sep) for tc, w in lines)


class GapRep(assets.Rep):
    """A representation whose media data box starts with other bytes."""
    gap = b""

    def seg_bytes(self, k, number):
        d = super().seg_bytes(k, number)
        if not self.gap:
            return d
        i, j = d.rindex(b"mdat") - 4, d.index(b"trun") + 12
        size = int.from_bytes(d[i:i + 4], "big") + len(self.gap)
        off = int.from_bytes(d[j:j + 4], "big") + len(self.gap)
        return d[:j] + iso.u32(off) + d[j + 4:i] + iso.u32(size) + b"mdat" + self.gap + d[i + 8:]


class Case:
    """An asset on disk."""

    def __init__(self, rep, first=1, dur=2, others=()):
        self.rep, self.first = rep, first
        self.dir = tempfile.mkdtemp(prefix="mc_cc_")
        self.asset = assets.Asset("cc", dur, len(rep.segs), first, [rep] + list(others))
        self.asset.write(self.dir, None)
        self.mpd = os.path.join(self.dir, "cc", "Manifest.mpd")
        self.scc = os.path.join(self.dir, "c.scc")
        self.out = os.path.join(self.dir, "out")

    def run(self, lines, field=1, extra=(), **kw):
        """Returns (failure, {file: content})."""
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        with open(self.scc, "w") as f:
            f.write(scc_text(lines, **kw))
        err = insert(self.mpd, self.scc, self.out, (["-f", field] if field != 1 else []) + list(extra))
        return err, {f: open(os.path.join(self.out, f), "rb").read() for f in os.listdir(self.out)}

    def judge(self, lines, field, got, upto=None):
        out, rep, names = [], self.rep, set()
        orig = rep.segs
        for k, new in enumerate(expected(rep, lines, field)):
            name = "%d.m4s" % (self.first + k)
            names.add(name)
            raw = rep.seg_bytes(k, self.first + k)
            if upto is not None and k >= upto:
                if name in got:
                    out.append("segment %s written although only %d are asked for" % (name, upto))
            elif new is None:
                if got.get(name, raw) != raw:
                    out.append("segment %s changed although no caption is in it" % name)
            elif name not in got:
                out.append("segment %s with captions not written" % name)
            else:
                rep.segs = orig[:k] + [(orig[k][0], new)] + orig[k + 1:]
                try:
                    want = rep.seg_bytes(k, self.first + k)
                finally:
                    rep.segs = orig
                if got[name] != want:
                    out.append("segment %s: %s" % (name, self.explain(got[name], new, want)))
        for n in set(got) - names:
            out.append("unexpected file %s" % n)
        return out

    def explain(self, data, new, want):
        try:
            s = iso.parse_joined(data, self.rep.trex, self.rep.frags).tracks[0].samples
        except Exception as e:      # noqa
            return "not parsable (%r)" % e
        for i, (a, b) in enumerate(itertools.zip_longest(s, new)):
            if a is None or b is None or a.key() != b.key():
                return "sample %d is %r, expected %r" % (i, a, b)
        d = next((i for i, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want)))
        return "bytes differ from offset %d (%d and %d bytes)" % (d, len(data), len(want))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def check(acc, case, key, lines, field=1, extra=(), upto=None, **kw):
    acc.state(len(case.rep.segs))
    acc.trans("run")
    err, got = case.run(lines, field, extra, **kw)
    probs = ["failed: " + err] if err else case.judge(lines, field, got, upto)
    for p in probs[:2]:
        acc.bad(key + p[:25], "%s: %s" % (key, p), scc=lines[:3])
    return got


def pictures(n, per, dur, structure=((9, 7, 8, 6, 5), (9, 1)), start=0, durs=None):
    """n segments of per pictures, each with the NAL types of `structure`."""
    out, t, c = [], start, 0
    for k in range(n):
        s = []
        for i in range(per):
            types = structure[(k * per + i) % len(structure)]
            data = b"".join(nalu(x, b"%d.%d.%d" % (k, i, j) + b"y" * (c % 3), 1 if x == 1 else 3) for j, x in enumerate(types))
            d = durs[c % len(durs)] if durs else dur
            s.append(Smp(data, d, 0x02000000 if i == 0 else 0x01010000, (0, 2, 1)[i % 3] * dur))
            c += 1
        out.append((t, s))
        t += sum(x.dur for x in s)
    return out


def code(f):
    """Time code of frame number f at 30 frames per counted second."""
    return "%02d:%02d:%02d:%02d" % (f // 108000, f // 1800 % 60, f // 30 % 60, f % 30)


def words(i, n=2):
    return ["%04x" % ((i * 7919 + j * 257 + 0x9420) & 0xffff) for j in range(n)]


# ------------------------------------------------------------------ shards

TIMES = [(90000, 3003, 60), (90000, 3000, 60), (90000, 3600, 50), (30000, 1001, 30), (25, 1, 25), (12800, 512, 50), (1000, 40, 50), (10000000, 333667, 12),
         (24000, 1001, 48), (60000, 1001, 120), (1000, 33, 30), (1, 1, 2), (3, 1, 6), (600, 20, 60)]


def times_shard(acc, i):
    """Every time code of the asset, one caption at a time, all of them together, and every second one."""
    ts, d, per = TIMES[i]
    for start in (0, d * 7):
        segs = pictures(3, per, d, start=start)
        rep = assets.Rep("V1", "video", ts, 1, segs, dict(cto=True))
        end = segs[-1][0] + rep.dur(2)
        frames = min(int(end * 30 / ts) + 45, 330)
        with Case(rep, first=i, dur=max(1, round(per * d / ts))) as c:
            for sel in [range(frames), range(0, frames, 2), range(1, frames, 3), range(frames - 1, -1, -1)] + [
                    [f] for f in range(0, frames, 1 if core.thorough() else 3)]:
                lines = [(code(f), words(f)) for f in sel]
                check(acc, c, "timescale %d picture %d start %d: captions at frames %s" % (ts, d, start, list(sel)[:4]), lines)
    acc.trace()
    acc.sample("every time code of %d pictures of %d/%d s" % (3 * per, d, ts))


def late_shard(acc, part, parts):
    """Media that starts hours into the timeline."""
    for i, (h, (ts, d, per)) in enumerate(itertools.product((1, 9, 10, 59, 99), TIMES[:6])):
        if i % parts != part:
            continue
        for tv in (0, 1):
            start = h * 3600 * ts // d * d
            if tv == 0 and start >= 2**32 - 10 * per * d:
                continue
            rep = assets.Rep("V1", "video", ts, 1, pictures(2, per, d, start=start), dict(tfdt_version=tv))
            with Case(rep) as c:
                for off in range(0, 150, 7):
                    check(acc, c, "hour %d timescale %d" % (h, ts), [(code(h * 108000 - 10 + off), words(off)), ("00:00:00:00", words(1)), ("59:59:59:29", words(2))])
    acc.trace()


def nal_shard(acc, part, parts):
    """Every picture of up to four NAL units over the relevant types."""
    types = (1, 5, 6, 7, 9, 12)
    todo = [x for n in range(1, 5 if core.thorough() else 4) for x in itertools.product(types, repeat=n)]
    for i, x in enumerate(todo):
        if i % parts != part:
            continue
        y = todo[(i * 5 + 3) % len(todo)]
        rep = assets.Rep("V1", "video", 1000, 1, pictures(2, 4, 500, structure=(x, y, (5,), y)))
        with Case(rep) as c:
            for frames in ((0,), (15,), (0, 15, 30, 45), (1, 2, 3, 50, 70, 100), (59, 119)):
                check(acc, c, "NAL types %s %s, captions at %s" % (x, y, frames), [(code(f), words(f, 1 + f % 4)) for f in frames])
    # every NAL type, and large and odd NAL units
    if part == 0:
        for t in range(32):
            rep = assets.Rep("V1", "video", 1000, 1, pictures(1, 2, 1000, structure=((9, t, 1), (t,))))
            with Case(rep) as c:
                check(acc, c, "NAL type %d" % t, [(code(f), words(f)) for f in (0, 30)])
        for size in (0, 1, 3, 255, 256, 65535, 65536, 70000, 2**24):
            segs = [(0, [Smp(nalu(9) + nalu(6, b"z" * size) + nalu(5, b"s" * size), 1000, 0x02000000), Smp(nalu(1, b"t" * size), 1000, 0x01010000),
                         Smp(nalu(9) + nalu(1, b"u"), 1000, 0x01010000)])]
            with Case(assets.Rep("V1", "video", 1000, 1, segs)) as c:
                for sel in itertools.product((False, True), repeat=3):
                    check(acc, c, "NAL size %d" % size, [(code(30 * i), words(30 * i)) for i in range(3) if sel[i]])
    acc.trace()


A = assets
EXTRA = [None, dict(top=A.UUID + A.PRFT), dict(moof=A.UUID), dict(traf0=A.FREE), dict(traf1=A.SDTP), dict(traf2=A.SUBS + A.SBGP + A.UUID), dict(end=A.FREE + A.UUID)]


def pack_shard(acc, part, parts):
    """Packagings of the fragment."""
    todo = list(itertools.product(("trun", "tfhd"), ("trun", "tfhd", "trex"), (False, True), (False, True), (0, 1), (None, (b"msdh", b"msix")),
                                  (False, True), ("tfdt_first", "tfdt_last"), (None, 1), (b"", b"gap bytes"), (1, 2)))
    for i, (dur_in, flags_in, first_flags, cto, tv, styp, dbm, order, sdi, gap, field) in enumerate(todo):
        if i % parts != part or (first_flags and flags_in == "trun"):
            continue
        b = dict(dur_in=dur_in, flags_in=flags_in, first_flags=first_flags, cto=cto, tfdt_version=tv, styp=styp, default_base_moof=dbm, order=order, sdi=sdi, extra=None if gap else EXTRA[i % len(EXTRA)])
        rep = GapRep("V1", "video", 90000, 3, pictures(2, 4, 22500, durs=(9000, 36000, 22500) if dur_in == "trun" else None), b, dict(trex_flags=0x01010000))
        rep.gap = gap
        with Case(rep, dur=1) as c:
            check(acc, c, "packaging %s gap %d" % (b, len(gap)), [(code(f), words(f, 3)) for f in (2, 9, 10, 40, 59)], field)
    acc.trace()


def runs_shard(acc, part, parts):
    """Segments of several fragments and track runs."""
    todo = list(itertools.product((1, 2, 3), (1, 2, 3), (False, True), ("trun", "tfhd"), ("trun", "trex"), (False, True), (False, True), (0, 1), (1, 2)))
    for i, (frags, truns, later, dur_in, flags_in, first_flags, cto, start, field) in enumerate(todo):
        if i % parts != part or (first_flags and flags_in == "trun") or frags * truns == 1 or (truns == 1 and not later):
            continue
        per = 9 if frags * truns > 6 else 6
        b = dict(frags=frags, truns=truns, later_offsets=later, dur_in=dur_in, flags_in=flags_in, first_flags=first_flags, cto=cto, extra=EXTRA[i % len(EXTRA)])
        segs = pictures(2, per, 18000, durs=(9000, 36000, 9000) if dur_in == "trun" else None, start=start * 126000)
        rep = GapRep("V1", "video", 90000, 3, segs, b, dict(trex_flags=0x01010000))
        end = int((segs[-1][0] + rep.dur(1)) * 30 / 90000) + 2
        every = [[(code(f), words(f, 3))] for f in range(i % 5, end, 1 if core.thorough() else 5)]
        with Case(rep, dur=max(1, round(rep.dur(0) / 90000))) as c:
            for lines in every + [sum(every, []), sum(every[::3], []), sum(every[1::2], [])]:
                check(acc, c, "runs %s" % b, lines, field)
    acc.trace()
    acc.sample("captions in segments of up to 3 fragments of up to 3 track runs")


def text_shard(acc, part, parts):
    """Captions: number of words, several per picture, equal times, field, layout of the file."""
    rep = assets.Rep("V1", "video", 1000, 1, pictures(3, 4, 500))
    audio = assets.Rep("A1", "audio", 48000, 2, assets.framed_segs("a", 3, 2, 48000, 1000))
    i = 0
    for others in ((), (audio,)):
        with Case(rep, others=others) as c:
            for n, field in itertools.product(list(range(1, 71)) + [93, 94, 124, 125], (1, 2)):
                i += 1
                if i % parts != part:
                    continue
                k = "%d words field %d" % (n, field)
                check(acc, c, k, [("00:00:02:03", words(n, n))], field)
                check(acc, c, k + " twice", [("00:00:02:03", words(n, n)), ("00:00:02:03", words(n + 1, 2)), ("00:00:02:04", words(5, n)), ("00:00:05:29", words(6, 1))], field)
            for frames in itertools.product((0, 14, 15, 60, 61, 179, 180), repeat=2 if not core.thorough() else 3):
                i += 1
                if i % parts != part:
                    continue
                lines = [(code(f), words(f + 9 * j, 3)) for j, f in enumerate(frames)]
                for kw in (dict(sep="\n"), dict(sep=""), dict(sep="", head=""), dict(sep="\n\n", head="Scenarist_SCC V1.0\n")):
                    check(acc, c, "captions at %s layout %s" % (frames, kw), lines, **kw)
            for pair in ("0000", "00ff", "ff00", "ffff", "0001", "8080", "942C", "abcd", "0b00"):
                i += 1
                if i % parts == part:
                    check(acc, c, "words %s" % pair, [("00:00:01:00", [pair, "9420", pair, pair])])
    acc.trace()


def range_shard(acc, part, parts):
    """First numbers, segment limits, other options, and refusals."""
    i = 0
    for first, n, m in itertools.product((0, 1, 9, 99, 65535), (1, 2, 3, 12), (None, 0, 1, 2, 5, 11, 12, 13)):
        i += 1
        if i % parts != part:
            continue
        rep = assets.Rep("V1", "video", 1000, 1, pictures(n, 2, 1000))
        with Case(rep, first=first) as c:
            lines = [(code(60 * k + 5), words(k)) for k in range(n)]
            for extra in ([], ["-v"]):
                check(acc, c, "first %d, %d segments, limit %s %s" % (first, n, m, extra), lines, extra=(["-m", m] if m is not None else []) + extra, upto=m or None)
            check(acc, c, "first %d, no captions" % first, [])
            if n > 2:
                for gone in range(1, n - 1):
                    p = os.path.join(c.dir, "cc", "V1", "%d.m4s" % (first + gone))
                    os.rename(p, p + "x")
                    os.rename(p + "x", os.path.join(c.dir, "kept"))
                    err, got = c.run(lines)
                    acc.state()
                    acc.trans("refused" if err else "accepted")
                    if not err or "missing" not in err or "Error" not in err or "TypeError" in err or got:
                        acc.bad("gap %d %d %d" % (first, n, gone), "segment %d of %d..%d missing: result %s, files %s" % (
                            first + gone, first, first + n - 1, err, sorted(got)))
                    os.rename(os.path.join(c.dir, "kept"), p)
    acc.trace()


def main():
    jobs = ([("times_shard", (i,)) for i in range(len(TIMES))] + [("late_shard", (i, 4)) for i in range(4)] + [("nal_shard", (i, 8)) for i in range(8)]
            + [("pack_shard", (i, 8)) for i in range(8)] + [("runs_shard", (i, 8)) for i in range(8)] + [("text_shard", (i, 8)) for i in range(8)] + [("range_shard", (i, 4)) for i in range(4)])
    return core.run_check(PID, __name__, jobs,
                          bounds="every time code of three segments for %d (timescale, picture duration) pairs; every picture of up to 3 NAL units over 6 types; "
                                 "2560 fragment packagings, and segments of up to 3 fragments of up to 3 track runs; 1..125 words per line, fields 1 and 2; numbers of segments, first numbers, limits, missing segments" % len(TIMES))
