"""C26: the subtitle generator: generated init and media segments against a parser, and served live."""
import itertools
import os
import re
import runpy
import shutil
import sys
import tempfile
import warnings
from xml.etree import ElementTree as ET
from .. import env, core, iso

PID = "C26"
DIRECT_API = True
TT = "{http://www.w3.org/ns/ttml}"
XMLID = "{http://www.w3.org/XML/1998/namespace}id"


def generate(args):
    """Run the generator as a program; None or a description of the failure."""
    env.setup()
    argv = sys.argv
    sys.argv = ["make_stpp_segments.py"] + [str(a) for a in args]
    try:
        with env.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("dashlivesim.dashlib.stpp_generator.make_stpp_segments", run_name="__main__")
    except SystemExit as e:
        return "exit %s" % e.code if e.code else None
    except env.Hang:
        raise
    except BaseException as e:      # noqa
        return repr(e)
    finally:
        sys.argv = argv
    return None


def ms(text):
    m = re.fullmatch(r"(\d\d+):([0-5]\d):([0-5]\d)\.(\d{3})", text or "")
    if not m:
        raise iso.IsoError("time %r" % text)
    h, mi, s, f = map(int, m.groups())
    return ((h * 60 + mi) * 60 + s) * 1000 + f


def judge_init(data, track, lang, ts=1000, created=None, name=None):
    out = []
    d = iso.parse_init(data)
    tops = {t.typ: t for t in iso.parse(data)}
    moov = tops[b'moov']
    if d["tops"][:1] != [b'ftyp']:
        out.append("no ftyp first: %s" % d["tops"])
    if len(d["tracks"]) != 1:
        return out + ["%d tracks" % len(d["tracks"])]
    t = d["tracks"][0]
    if t["id"] != track:
        out.append("track id %d, expected %d" % (t["id"], track))
    if list(d["trex"]) != [track]:
        out.append("trex for tracks %s, expected %d" % (list(d["trex"]), track))
    if t["timescale"] != ts:
        out.append("timescale %d, expected %d" % (t["timescale"], ts))
    if (d["mvhd_dur"], t["tk_dur"], t["md_dur"]) != (0, 0, 0):
        out.append("durations %s" % [d["mvhd_dur"], t["tk_dur"], t["md_dur"]])
    if t["handler"] != b'subt':
        out.append("handler %r" % t["handler"])
    mv, tk, md, hd = moov.one(b'mvhd').data, moov.one(b'trak', b'tkhd').data, moov.one(b'trak', b'mdia', b'mdhd').data, moov.one(b'trak', b'mdia', b'hdlr').data
    if (len(mv), len(tk), len(md)) != (108, 92, 32):
        out.append("sizes of mvhd, tkhd, mdhd: %s" % [len(mv), len(tk), len(md)])
    if int.from_bytes(mv[-4:], "big") != track + 1:
        out.append("next track id %d" % int.from_bytes(mv[-4:], "big"))
    code = int.from_bytes(md[28:30], "big")
    got = "".join(chr(96 + (code >> k & 31)) for k in (10, 5, 0))
    if code >> 15 or got != lang:
        out.append("language %s, expected %s" % (got, lang))
    if created is not None:
        for n, b in (("mvhd", mv), ("tkhd", tk), ("mdhd", md)):
            if b[12:20] != iso.u32(created) * 2:
                out.append("%s times %r" % (n, b[12:20]))
    if hd[-1:] != b'\0' or b'\0' in hd[32:-1]:
        out.append("handler name %r" % hd[32:])
    if name is not None and hd[32:-1] != name.encode():
        out.append("handler name %r, expected %r" % (hd[32:], name))
    stsd = moov.one(b'trak', b'mdia', b'minf', b'stbl', b'stsd').data
    if int.from_bytes(stsd[12:16], "big") != 1 or stsd[20:24] != b'stpp' or int.from_bytes(stsd[16:20], "big") != len(stsd) - 16:
        out.append("sample description %r" % stsd[:24])
    return out


def judge_media(data, track, seq, start, dur, doc=None):
    out = []
    seg = iso.parse_segment(data)
    if seg.brands is None:
        out.append("no styp")
    t = seg.tracks[0]
    got = (len(seg.tracks), t.track_id, t.seqno, t.tfdt, t.dur, len(t.samples))
    if got != (1, track, seq, start, dur, 1):
        out.append("(tracks, id, number, time, duration, samples) = %s, expected %s" % (got, (1, track, seq, start, dur, 1)))
    if doc is not None and t.samples[0].data != doc:
        out.append("sample %r..., expected %r..." % (t.samples[0].data[:30], doc[:30]))
    mdat = [x for x in iso.parse(data) if x.typ == b'mdat'][0]
    if mdat.payload != t.samples[0].data:
        out.append("mdat has %d bytes, the sample %d" % (len(mdat.payload), len(t.samples[0].data)))
    return out, t.samples[0].data


def judge_doc(data, start, dur, res, lang, ids, shift=0, live=False):
    """Cues of a document tile the interval [start, start+dur)."""
    out = []
    root = ET.fromstring(data)
    if root.tag != TT + "tt":
        out.append("root %s" % root.tag)
    cues = list(root.iter(TT + "p"))
    want = [(start + shift + k, start + shift + min(k + res, dur)) for k in range(0, dur, res)]
    got = [(ms(p.get("begin")), ms(p.get("end"))) for p in cues]
    if got != want:
        out.append("cues %s, expected %s" % (got[:5], want[:5]))
    for p, (b, _) in zip(cues, want):
        text = "".join(p.itertext()).strip()
        if not live:
            h, r = divmod(b, 3600000)
            t = "%s : %02d:%02d:%02d.%03d" % (lang, h, r // 60000, r // 1000 % 60, r % 1000)
            if text != t:
                out.append("text %r, expected %r" % (text, t))
            i = p.get(XMLID)
            if not i or i in ids:
                out.append("id %r missing or repeated" % i)
            ids.add(i)
    return out


def programs():
    """(n, dur, res, lang, track, fmt)"""
    out = []
    for d, r in ((1000, 1000), (2000, 1000), (2000, 2000), (2000, 500), (4000, 250), (1920, 960), (960, 40), (10000, 5000), (3, 1), (999, 333), (1, 1)):
        for n in (1, 2, 3, 11):
            for lang, track in (("eng", 3), ("swe", 1), ("aaa", 2), ("zzz", 4294967294), ("und", 255)):
                out.append((n, d, r, lang, track, "%d"))
    for fmt in ("%d", "%05d", "seg-%d", "a%db", "%03d.x"):
        out.append((12, 2000, 1000, "fre", 7, fmt))
    out += [(30, 3600000, 600000, "eng", 3, "%d"), (101, 3600000, 3600000, "ger", 5, "%d"), (62, 60000, 30000, "eng", 3, "%d"), (620, 6000, 2000, "eng", 4, "%d")]
    return out


def program_shard(acc, part, parts):
    for i, (n, d, r, lang, track, fmt) in enumerate(programs()):
        if i % parts != part:
            continue
        key = "n=%d d=%d r=%d l=%s t=%d f=%s" % (n, d, r, lang, track, fmt)
        tmp = tempfile.mkdtemp(prefix="mc_stpp_")
        try:
            for sub in (("out",) if i % 3 else (".", "out")):
                dest = os.path.join(tmp, sub)
                args = ["-d", d, "-n", n, "-o", dest]
                args += ["-f", fmt] if fmt != "%d" else []
                args += ["-r", r] if r != 1000 else []
                args += ["-l", lang] if lang != "eng" else []
                args += ["-t", track] if track != 3 else []
                acc.trans("program")
                err = generate(args)
                names = sorted(x for x in os.listdir(dest) if os.path.isfile(os.path.join(dest, x))) if os.path.isdir(dest) else []
                want = sorted(["init.mp4"] + [fmt % k + ".m4s" for k in range(1, n + 1)])
                if err or names != want:
                    acc.bad(key, "generator failed: %s, files %s, expected %s" % (err, names[:5], want[:5]), args=" ".join(map(str, args)))
                    break
                probs, ids = [], set()
                try:
                    probs += ["init: " + x for x in judge_init(open(os.path.join(dest, "init.mp4"), "rb").read(), track, lang)]
                    for k in range(n):
                        acc.state()
                        data = open(os.path.join(dest, fmt % (k + 1) + ".m4s"), "rb").read()
                        p, doc = judge_media(data, track, k + 1, k * d, d)
                        p += judge_doc(doc, k * d, d, r, lang, ids)
                        probs += ["segment %d: %s" % (k + 1, x) for x in p]
                except Exception as e:      # noqa
                    probs.append("not parsable: %r" % e)
                for p in probs[:3]:
                    acc.bad(key + p[:20], "%s (%s)" % (p, key), args=" ".join(map(str, args)))
            acc.trace()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    acc.sample("part %d of %d generator runs, every segment and cue" % (part, len(programs())))


def api_shard(acc, part, parts):
    """The two functions behind the program, for extreme values."""
    env.setup()
    from dashlivesim.dashlib.stpp_generator import stpp_creator as sc
    docs = [b"", b"x", b"<tt/>", "<tt>åäö 日本</tt>".encode(), b"d" * 65535, b"e" * 100000, b"moofmdatstyp" * 9]
    todo = list(itertools.product((1, 3, 2**31, 2**32 - 2), (0, 1, 2**16, 2**31, 2**32 - 1), (1, 1000, 2**32 - 1),
                                  (0, 1, 2**31, 2**32 - 1, 2**32, 2**33 + 5, 2**63, 2**64 - 1), docs))
    for i, (track, seq, dur, t, doc) in enumerate(todo):
        if i % parts != part:
            continue
        acc.state()
        acc.trans("media")
        key = "media t=%d n=%d d=%d tfdt=%d %d bytes" % (track, seq, dur, t, len(doc))
        try:
            p, _ = judge_media(sc.create_media_segment(track, seq, dur, t, doc), track, seq, t, dur, doc)
        except Exception as e:      # noqa
            p = [repr(e)]
        for x in p[:2]:
            acc.bad(key + x[:10], "%s: %s" % (key, x))
    letters = "abmz"
    todo = [("".join(x), tr, ts, ct, nm) for x in itertools.product(letters, repeat=3) for tr in (1, 3, 2**32 - 2) for ts in (1, 1000, 90000, 2**32 - 1)
            for ct in (None, 1, 3600000000) for nm in (None, "X", "Handler åö", "n" * 300)]
    for i, (lang, track, ts, ct, nm) in enumerate(todo):
        if i % parts != part:
            continue
        acc.state()
        acc.trans("init")
        key = "init l=%s t=%d ts=%d time=%s name=%s" % (lang, track, ts, ct, nm and nm[:12])
        try:
            with env.quiet():
                data = sc.create_init_segment(lang, track, ts, ct, nm)
            p = judge_init(data, track, lang, ts, ct, nm)
        except Exception as e:      # noqa
            p = [repr(e)]
        for x in p[:2]:
            acc.bad(key + x[:10], "%s: %s" % (key, x))
    acc.trace()


def live_shard(acc, part, parts):
    """The generated track served live: every segment of several loops."""
    cases = [(2, 4, 1000), (3, 5, 3000), (1, 7, 250), (10, 3, 5000), (6, 2, 2000)]
    for i, (dur, n, res) in enumerate(cases):
        if i % parts != part:
            continue
        with env.Server([]) as srv:
            base = os.path.join(srv.content, "gen")
            os.makedirs(base)
            err = generate(["-d", dur * 1000, "-n", n, "-r", res, "-o", os.path.join(base, "S1")])
            with open(os.path.join(srv.cfg, "gen.cfg"), "w") as f:
                f.write("[General]\nversion = 1.0\n[Setup]\nfirst_segment_in_loop = 1\nnr_segments_in_loop = %d\nsegment_duration_s = %d\n"
                        "default_tsbd_secs = 60\n[subtitles]\nrepresentations = S1\ntimescale = 1000\n" % (n, dur))
            if err:
                acc.bad("gen%d" % i, "generator failed: %s" % err)
                continue
            r = srv.get("gen/S1/init.mp4", 1000)
            acc.trans("live")
            try:
                p = ["status %s" % r.status] if r.status != 200 else judge_init(r.body, 3, "eng")
            except Exception as e:      # noqa
                p = [repr(e)]
            for x in p[:2]:
                acc.bad("init%d" % i + x[:10], "live init segment of the generated track: %s" % x)
            for first in (0, 5 * n, 3600 // dur, 86400 // dur, 359000 // dur, 1600000000 // dur, min(2**32 // dur, 2**32 - 3 * n)):
                for nr in range(first, first + 2 * n + 1):
                    acc.state()
                    acc.trans("live")
                    r = srv.get("gen/S1/%d.m4s" % nr, (nr + 1) * dur)
                    try:
                        if r.status != 200:
                            p = ["status %s %r" % (r.status, r.body[:80])]
                        else:
                            p, doc = judge_media(r.body, 3, nr, nr * dur * 1000, dur * 1000)
                            p += judge_doc(doc, nr % n * dur * 1000, dur * 1000, res, "eng", set(), nr // n * n * dur * 1000, True)
                    except Exception as e:      # noqa
                        p = [repr(e)]
                    for x in p[:2]:
                        acc.bad("live%d-%d" % (i, nr) + x[:10], "live segment %d of the generated track (%d x %d s): %s" % (nr, n, dur, x))
            acc.trace()


def main():
    jobs = [("program_shard", (i, 8)) for i in range(8)] + [("api_shard", (i, 8)) for i in range(8)] + [("live_shard", (i, 5)) for i in range(5)]
    return core.run_check(PID, __name__, jobs,
                          bounds="%d runs of the program (durations 1 ms..1 h, resolutions, languages, track ids, names, 101 h); "
                                 "3360 media and 9216 init parameter tuples with 32/64-bit limits; 5 generated tracks served live around 7 anchors" % len(programs()))
