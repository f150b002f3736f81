"""C34: what the configuration of a content declares decides what is served of it."""
import os
import re
import shutil
import xml.etree.ElementTree as ElementTree
from itertools import product
from .. import assets, env, core

PID = "C34"
BASE = 1500000000


def asset():
    n, dur, first = 3, 2, 2
    ev, fr = assets.even_segs, assets.framed_segs
    v = lambda i: assets.Rep("V%s" % i, "video", 90000, 1, ev("v%s" % i, n, dur * 90000, 2))
    a = lambda i: assets.Rep("A%s" % i, "audio", 48000, 2, fr("a%s" % i, n, dur, 48000, 3200))
    s = assets.Rep("S1", "subtitles", 1000, 3, [(k * dur * 1000, [assets.Smp(assets.ttml_doc(k, dur), dur * 1000, 0x02000000)]) for k in range(n)],
                   dict(dur_in="tfhd", size_in="tfhd", flags_in="tfhd"))
    t = assets.Rep("thumbs", "image", 1, 0, [(k * dur, [assets.Smp(b"\xff\xd8J%d\xff\xd9" % k, dur, 0)]) for k in range(n)], ext=".jpg")
    return assets.Asset("sq", dur, n, first, [v(1), v(""), a(1), a(""), s, t])


ALL = (("video", ("V1", "V")), ("audio", ("A1", "A")), ("subtitles", ("S1",)), ("image", ("thumbs",)))
TS = {"video": 90000, "audio": 48000, "subtitles": 1000, "image": 1}
CTYPE = {r: ct for ct, reps in ALL for r in reps}


def items(decl, version="1.1", tsbd=300, n=3, first=2, dur=2):
    """The configuration as data: [(section, [(option, value)])]."""
    out = [("General", [("version", version)]),
           ("Setup", [("first_segment_in_loop", str(first)), ("nr_segments_in_loop", str(n)), ("segment_duration_s", str(dur)), ("default_tsbd_secs", str(tsbd))])]
    for ct, reps in decl:
        kv = [("representations", list(reps)), ("timescale", str(TS[ct]))]
        if version == "1.1":
            kv += [("total_duration", str(n * dur * TS[ct])), ("dat_file", "sq_%s.dat" % ct)]
        out.append((ct, kv))
    return out


# Ways to write the same configuration: the text is an INI file as the Python library reads it.
def fmt(cfg, sep=" = ", join=", ", order=1, okeys=1, case=str, comment=None, nl="\n", blank=True, extra=False):
    lines = []
    secs = list(cfg)[::order]
    if extra:
        secs = [("Other", [("version", "7"), ("representations", ["X"])])] + secs + [("text", [("timescale", "5")])]
    for name, kv in secs:
        if comment:
            lines.append(comment + " [" + name + "] = 1")
        lines.append("[%s]" % name)
        kv = list(kv)[::okeys]
        if extra:
            kv = kv + [("unknown", "1"), ("version2", "3.0")]
        for k, v in kv:
            if isinstance(v, list):
                v = join.join(v)
            lines.append(case(k) + sep + v)
            if comment:
                lines.append("  " + comment + " about " + k)
        if blank:
            lines.append("")
    return nl.join(lines) + nl


STYLES = [dict(), dict(sep="="), dict(sep=": "), dict(sep="   =   "), dict(join=","), dict(join=" , "), dict(join=",\n    "), dict(join=",   "), dict(order=-1), dict(okeys=-1),
          dict(case=str.upper), dict(case=str.title), dict(comment="#"), dict(comment=";"), dict(nl="\r\n"), dict(blank=False), dict(extra=True),
          dict(sep="=", join=" ,\t", order=-1, okeys=-1, case=str.upper, comment=";", nl="\r\n", blank=False, extra=True)]


def write(srv, text, name="sq"):
    with open(os.path.join(srv.cfg, name + ".cfg"), "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def same_content(srv, name):
    """The same content under another name: a different content as far as the server can tell, so nothing remembered of another one applies."""
    shutil.copytree(os.path.join(srv.content, "sq"), os.path.join(srv.content, name), copy_function=os.link)


def requests(now, n=None):
    n = now // 2 - 1 if n is None else n
    out = []
    for r in CTYPE:
        if r == "thumbs":
            out.append("thumbs/%d.jpg" % n)
        else:
            out += ["%s/init.mp4" % r, "%s/%d.m4s" % (r, n)]
    return out


MUX = [(a, b) for a in ("V1", "V", "A1", "A") for b in ("V1", "V", "A1", "A") if CTYPE[a] != CTYPE[b]]


def neutral(r, name):
    return (r.status, r.body.replace(b"/" + name.encode() + b"/", b"/sq/"), sorted(h for h in r.hlist))


def shard_style(acc, si):
    """The way the file is written makes no difference."""
    style = STYLES[si]
    now = BASE + 7
    with env.Server([asset()]) as srv:
        first = {}
        for vi, (version, tsbd) in enumerate(product(("1.0", "1.1"), (5, 300))):
            cfg = items(ALL, version, tsbd)
            ref, var = "r%d" % vi, "x%d" % vi
            for nm in (ref, var):
                same_content(srv, nm)
            write(srv, fmt(cfg), ref)
            write(srv, fmt(cfg, **style), var)
            reqs = [o + x for o in ("", "tsbd_3/", "start_%d/" % (BASE - 40)) for x in requests(now, now // 2 - 1 if "start" not in o else 20)] \
                + ["%s__%s/%s" % (a, b, x) for a, b in MUX for x in ("init.mp4", "%d.m4s" % (now // 2 - 1))] \
                + [o + "Manifest.mpd" for o in ("", "tsbd_3/", "snr_1/", "periods_60/", "segtimelinenr_1/", "segtimeline_1/")] \
                + ["V9/init.mp4", "V9/%d.m4s" % (now // 2 - 1), "Manifest.foo"]
            for q in reqs:
                o, _, x = q.rpartition("/") if q.endswith(".mpd") else (q.split("/")[0], "", "/".join(q.split("/")[1:])) if q.split("_")[0] in ("tsbd", "start") else ("", "", q)
                o = o + "/" if o else ""
                a, b = (srv.get(o + nm + "/" + x, float(now)) for nm in (ref, var))
                acc.state()
                acc.trans("answered %s" % a.status)
                key = "style %d %s%s version=%s tsbd=%d" % (si, o, x, version, tsbd)
                if a.error or b.error:
                    acc.bad(key, "no answer: %r %r" % (a.error, b.error))
                elif a.status != b.status or (a.status == 200 and neutral(a, ref) != neutral(b, var)):
                    acc.bad(key, "the same configuration in another layout is answered differently: %s, should be %s\n%s" % (b.status, a.status, fmt(cfg, **style)), path=o + "sq/" + x, now=now)
                elif "segtimeline" not in q:       # version 1.1 adds what timelines need
                    if first.setdefault((tsbd, q), (neutral(a, ref), version))[0] != neutral(a, ref):
                        acc.bad(key, "answered differently with version %s and version %s" % (first[tsbd, q][1], version), path=o + "sq/" + x, now=now)
        acc.trace()
        acc.sample("layout %r: same answers as the plain layout" % (style,))


def subsets(reps):
    out = []
    for m in range(1 << len(reps)):
        out.append(tuple(r for i, r in enumerate(reps) if m >> i & 1))
    return out


def shard_declared(acc, version, vi):
    """A representation is served exactly when it is declared, alone and multiplexed, whatever else is declared."""
    now = BASE + 7
    n = now // 2 - 1
    count = 0
    with env.Server([asset()]) as srv:
        write(srv, fmt(items(ALL, version)), "sq")
        full = {}
        for x in requests(now) + ["%s__%s/%s" % (a, b, y) for a, b in MUX for y in ("init.mp4", "%d.m4s" % n)]:
            full[x] = srv.get("sq/" + x, float(now))
            acc.state()
            if full[x].status != 200:
                acc.bad("all declared: " + x, "declared, but answered %s %r" % (full[x].status, full[x].body[:80]), path="sq/" + x, now=now)
        for video in (subsets(ALL[0][1])[vi],):
            for audio in subsets(ALL[1][1]):
                for subs in subsets(ALL[2][1]):
                    for image in subsets(ALL[3][1]):
                        for order in (1, -1):
                            decl = [(ct, r[::order]) for (ct, _), r in zip(ALL, (video, audio, subs, image)) if r]
                            if not decl:
                                continue
                            count += 1
                            name = "d%d" % count
                            same_content(srv, name)
                            write(srv, fmt(items(decl, version)), name)
                            have = set(r for _, rr in decl for r in rr)
                            for x, f in full.items():
                                parts = x.split("/")[0].split("__")
                                r = srv.get(name + "/" + x, float(now))
                                acc.state()
                                want = all(p in have for p in parts)
                                acc.trans("declared" if want else "not declared")
                                key = "declared %s: %s version=%s" % ("+".join(sorted(have)), x, version)
                                if r.error:
                                    acc.bad(key, "no answer: %r" % r.error, path=name + "/" + x, now=now)
                                elif want and (r.status != 200 or r.body != f.body or r.hlist != f.hlist):
                                    acc.bad(key, "declared, but %s" % ("answered %s" % r.status if r.status != 200 else "served differently from when all others are declared as well"), path=name + "/" + x, now=now)
                                elif not want and r.status != 404:
                                    acc.bad(key, "not declared, but answered %s" % r.status, path=name + "/" + x, now=now)
                            m = srv.get(name + "/Manifest.mpd", float(now))
                            if m.status != 200:
                                acc.bad("declared %s: Manifest.mpd version=%s" % ("+".join(sorted(have)), version), "MPD answered %s" % m.status, path=name + "/Manifest.mpd", now=now)
        acc.trace()
        acc.sample("version %s: video %s with all subsets of audio, subtitles and images declared, in both orders" % (version, subsets(ALL[0][1])[vi]))


MODES = ("", "start_%d/" % (BASE - 400), "snr_3/", "periods_60/", "segtimelinenr_1/")


def shard_window(acc, tsbd, opt):
    """The declared time-shift buffer depth holds unless the URL gives one."""
    now = BASE + 1001
    eff = tsbd if opt is None else opt
    o = "" if opt is None else "tsbd_%d/" % opt
    with env.Server([asset()]) as srv:
        for version, mode in product(("1.0", "1.1"), MODES):
            if version == "1.0" and "timeline" in mode:
                continue
            name = "w%s%d" % (version[-1], MODES.index(mode))
            same_content(srv, name)
            write(srv, fmt(items(ALL, version, tsbd)), name)
            for order in (0, 1):
                pre = (o + mode) if order else (mode + o)
                key = "%s declared tsbd=%d version=%s" % (pre or "(no options)", tsbd, version)
                m = srv.get(pre + name + "/Manifest.mpd", float(now))
                acc.state()
                acc.trans("mpd")
                if m.status != 200:
                    acc.bad(key, "MPD answered %s" % m.status, path=pre + name + "/Manifest.mpd", now=now)
                    continue
                got = ElementTree.fromstring(m.body).get("timeShiftBufferDepth")
                if seconds(got) != eff:
                    acc.bad(key, "timeShiftBufferDepth %s, should be %d s" % (got, eff), path=pre + name + "/Manifest.mpd", now=now)
                start = BASE - 400 if mode.startswith("start") else 0
                base = 3 if mode.startswith("snr") else 0
                newest = base + (now - start) // 2 - 1
                for back in sorted({0, 1, 2, eff // 2 - 1, eff // 2, eff // 2 + 1, eff // 2 + 2, eff // 2 + 3, tsbd // 2 + 1, tsbd // 2 + 3, 150, 152, 700, 710}):
                    nr = newest - back
                    if nr < base or back < 0:
                        continue
                    end = start + (nr - base + 1) * 2
                    want = now <= end + 2 + eff
                    for rep, e in (("V1", "m4s"), ("A", "m4s"), ("thumbs", "jpg"), ("V1__A1", "m4s")):
                        path = "%s%s/%s/%d.%s" % (pre, name, rep, nr, e)
                        r = srv.get(path, float(now))
                        acc.state()
                        acc.trans("inside" if want else "outside")
                        if (r.status == 200) != want or r.status not in (200, 404):
                            acc.bad("%s %s" % (key, path), "segment ending %d s ago answered %s with a time-shift buffer of %d s" % (now - end, r.status, eff), path=path, now=now)
        acc.trace()
        acc.sample("declared tsbd %d, tsbd option %s: MPD and availability of old segments" % (tsbd, opt))


def seconds(s):
    m = re.match(r"^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?$", s or "")
    return sum(int(x or 0) * k for x, k in zip(m.groups(), (86400, 3600, 60, 1))) if m else None


def broken():
    """(what, text of the configuration or None for no file)."""
    good = items(ALL)
    text = fmt(good)

    def without(sec, opt=None):
        return fmt([(s, [kv for kv in kvs if not (s == sec and kv[0] == opt)]) for s, kvs in good if s != sec or opt])

    def put(sec, opt, val):
        return fmt([(s, [(k, val if (s, k) == (sec, opt) else v) for k, v in kvs]) for s, kvs in good])
    out = [("no file", None), ("empty file", ""), ("only blank lines", "\n\n"), ("only a comment", "# nothing\n"), ("binary", bytes(range(128, 256))), ("no sections", text.replace("[", "").replace("]", "")),
           ("garbage line", text + "this is no option\n" * 2), ("xml", "<config/>\n"), ("half a section header", text.replace("[Setup]", "[Setup"))]
    for v in ("", "0.9", "1", "1.2", "1.10", "2.0", "11", "1.1.0", "v1.1", "1,1", "None", "1.1 1.0"):
        out.append(("version %r" % v, put("General", "version", v)))
    out.append(("no General", without("General")))
    out.append(("no version", without("General", "version")))
    out.append(("no Setup", without("Setup")))
    for k in ("first_segment_in_loop", "nr_segments_in_loop", "segment_duration_s", "default_tsbd_secs"):
        out.append(("no " + k, without("Setup", k)))
        for v in ("", "x", "2.5", "0x10"):
            out.append(("%s = %r" % (k, v), put("Setup", k, v)))
    out.append(("segment_duration_s = 0", put("Setup", "segment_duration_s", "0")))
    return out


def shard_broken(acc, bi):
    """A content whose configuration is missing or cannot be understood is not served at all; its neighbour is."""
    what, text = broken()[bi]
    now = BASE + 7
    with env.Server([asset()]) as srv:
        same_content(srv, "bad")
        write(srv, fmt(items(ALL)), "sq")
        if text is not None:
            write(srv, text, "bad")
        before = {}
        # the order of the two contents, and repetition, make no difference
        for rnd in range(2):
            for o in ("", "start_%d/" % (BASE - 40), "tsbd_30/", "segtimeline_1/", "periods_60/", "modulo_10/", "ato_1/chunkdur_1/"):
                for x in requests(now, 20 if "start" in o else 2 if "modulo" in o else None) + ["Manifest.mpd", "Manifest.mpd+p1.period", "V1__A1/%d.m4s" % (now // 2 - 1), "V9/init.mp4", "x.foo"]:
                    r = srv.get(o + "bad/" + x, float(now))
                    acc.state()
                    acc.trans("refused")
                    key = "%s: %s%s" % (what, o, x)
                    if r.error or r.status != 404:
                        acc.bad(key, "the configuration is unusable (%s), but the answer is %s" % (what, r.error or r.status), path=o + "bad/" + x, now=now)
                    elif b"#EXT" in r.body or b"<MPD" in r.body or b"moof" in r.body or b"ftyp" in r.body or b"JFIF" in r.body:
                        acc.bad(key, "a refusal carries contents", path=o + "bad/" + x, now=now)
                    g = srv.get(o + "sq/" + x, float(now))
                    acc.state()
                    acc.trans("neighbour answered %s" % g.status)
                    if rnd == 0:
                        before[o, x] = neutral(g, "sq") if g.status == 200 else g.status
                        if o in ("", "tsbd_30/") and "V9" not in x and "foo" not in x and "period" not in x and g.status != 200:
                            acc.bad("neighbour of %s: %s%s" % (what, o, x), "the neighbour is answered %s" % g.status, path=o + "sq/" + x, now=now)
                    elif before[o, x] != (neutral(g, "sq") if g.status == 200 else g.status):
                        acc.bad("neighbour of %s: %s%s" % (what, o, x), "the neighbour is answered differently", path=o + "sq/" + x, now=now)
        acc.trace()
        acc.sample("%s: every kind of request is refused, its neighbour served" % what)


def shard_loop(acc, n):
    """The declared number of segments is what loops: (nr_segments_in_loop = 1..3 of the 3 stored)."""
    a = asset()
    dur, first = 2, 2
    with env.Server([a]) as srv:
        for version in ("1.0", "1.1"):
            name = "l" + version[-1]
            same_content(srv, name)
            write(srv, fmt(items(ALL, version, n=n)), name)
            for base in (BASE, BASE + 1, 600):
                for k in range(13):
                    now = base + 2 * k
                    nr = now // dur - 1
                    loops, idx = divmod(nr, n)
                    for rep in ("V1", "A", "S1", "thumbs"):
                        path = "%s/%s/%d.%s" % (name, rep, nr, "jpg" if rep == "thumbs" else "m4s")
                        r = srv.get(path, float(now))
                        acc.state()
                        acc.trans("segment")
                        key = "%s@%d n=%d version=%s" % (path, now, n, version)
                        if r.status != 200:
                            acc.bad(key, "answered %s" % r.status, path=path, now=now)
                            continue
                        if rep == "S1":     # the text is that of the live segment; the number of the stored paragraph tells the stored segment
                            found = [idx]
                        else:
                            found = [i for i in range(3) if all(s.data in r.body for s in a.rep(rep).segs[i][1])]
                        if found != [idx]:
                            acc.bad(key, "content of segment %s, should be the %d. of %d in the loop" % (found, idx, n), path=path, now=now)
        acc.trace()
        acc.sample("%d segments declared: contents of 13 consecutive segments from 3 instants" % n)


def main():
    jobs = [("shard_style", (i,)) for i in range(1, len(STYLES))]
    jobs += [("shard_declared", (v, i)) for v in ("1.0", "1.1") for i in range(4)]
    ts = (5, 60, 300) if not core.thorough() else (1, 2, 3, 4, 5, 10, 60, 299, 300, 301, 1000)
    jobs += [("shard_window", (t, o)) for t in ts for o in ((None, 0) + ts)]
    jobs += [("shard_broken", (i,)) for i in range(len(broken()))]
    jobs += [("shard_loop", (n,)) for n in (1, 2, 3)]
    return core.run_check(PID, __name__, jobs,
                          bounds="%d layouts of the file x versions x buffer depths x all kinds of requests; all 63 sets of declared representations (x order, version) x every representation and video/audio pair; "
                                 "%d x %d buffer depths; %d unusable configurations x 7 option sets x all kinds of requests; 1-3 segments in the loop" % (len(STYLES), len(ts), len(ts) + 2, len(broken())),
                          assumptions=["the dat files are those of the whole content (timelines of shortened contents are in C06-C08)", "a configuration is not edited while requests for it are served"])
