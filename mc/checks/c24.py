"""C24: the VoD analyzer: generated configuration against the generator's ground truth."""
import configparser
import itertools
import os
import runpy
import shutil
import struct
import sys
import tempfile
import warnings
from .. import assets, env, core
from ..iso import Smp

PID = "C24"
DIRECT_API = True


def analyze(mpd, cwd):
    """Run the analyzer as a program; returns None or a description of its failure."""
    env.setup()
    old, argv = os.getcwd(), sys.argv
    os.chdir(cwd)
    sys.argv = ["dashanalyzer.py", mpd]
    try:
        with env.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("dashlivesim.vodanalyzer.dashanalyzer", run_name="__main__")
    except SystemExit as e:
        return "exit %s" % e.code if e.code else None
    except Exception as e:      # noqa
        return repr(e)
    finally:
        os.chdir(old)
        sys.argv = argv
    return None


def read_dat(path):
    data = open(path, "rb").read()
    return [list(struct.unpack("HHII", data[i:i + 12])) for i in range(0, len(data), 12)]


def expand(entries):
    """(number, start, duration) of every segment described by a run-length table."""
    out = []
    for nr, rep, start, dur in entries:
        for i in range(rep + 1):
            out.append((nr + i, start + i * dur, dur))
    return out


def judge(asset, cwd):
    """Problems of the generated configuration."""
    out = []
    cfg_file = os.path.join(cwd, asset.name + ".cfg")
    if not os.path.exists(cfg_file):
        return ["no configuration %s.cfg among %s" % (asset.name, os.listdir(cwd))]
    c = configparser.RawConfigParser()
    c.read(cfg_file)

    def need(sec, opt, want):
        got = c.get(sec, opt) if c.has_option(sec, opt) else None
        if got != str(want):
            out.append("[%s] %s = %s, expected %s" % (sec, opt, got, want))
    need("General", "version", "1.1")
    need("Setup", "first_segment_in_loop", asset.first)
    need("Setup", "nr_segments_in_loop", asset.n)
    need("Setup", "segment_duration_s", asset.dur)
    if not c.has_option("Setup", "default_tsbd_secs") or not c.get("Setup", "default_tsbd_secs").isdigit():
        out.append("no default_tsbd_secs")
    for ct in ("video", "audio"):
        reps = [r for r in asset.reps if r.ctype == ct]
        if not reps:
            if c.has_section(ct):
                out.append("section for missing type %s" % ct)
            continue
        got = [x.strip() for x in c.get(ct, "representations").split(",")] if c.has_option(ct, "representations") else None
        if got != [r.id for r in reps]:
            out.append("[%s] representations %s, expected %s" % (ct, got, [r.id for r in reps]))
        need(ct, "timescale", reps[0].timescale)
        need(ct, "total_duration", reps[0].segs[asset.n - 1][0] + reps[0].dur(asset.n - 1) - reps[0].segs[0][0])
        dat = os.path.join(cwd, c.get(ct, "dat_file")) if c.has_option(ct, "dat_file") else ""
        if not os.path.isfile(dat):
            out.append("no timing file for %s" % ct)
            continue
        want = [(asset.first + k, reps[0].segs[k][0], reps[0].dur(k)) for k in range(asset.n)]
        got = expand(read_dat(dat))
        if got != want:
            d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            out.append("timing of %s: %s, expected %s (entry %d of %d)" % (ct, got[d:d + 3], want[d:d + 3], d, len(want)))
    return out


class Case:
    """An asset in a scratch content directory, analyzed."""

    def __init__(self, asset):
        self.asset = asset
        self.dir = tempfile.mkdtemp(prefix="mc_an_")
        self.content, self.out, self.truth = (os.path.join(self.dir, x) for x in ("content", "out", "truth"))
        for d in (self.content, self.out, self.truth):
            os.makedirs(d)
        asset.write(self.content, self.truth)
        self.err = None

    def run(self):
        self.err = analyze(os.path.join(self.content, self.asset.name, "Manifest.mpd"), self.out)
        return self.err

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def serve_both(acc, case, key):
    """Responses with the generated configuration equal those with the ground truth."""
    a = case.asset
    srv = env.Server([])
    try:
        t = 1600000000 // a.loop * a.loop
        nows = [t + x for x in (0.5, a.dur + 0.25, a.loop - 0.5, a.loop + a.dur)]
        paths = []
        n0 = t // a.dur
        for r in a.reps:
            if r.ctype in ("video", "audio"):
                paths += ["%s/%s/init.mp4" % (a.name, r.id)] + ["tsbd_300/%s/%s/%d.m4s" % (a.name, r.id, n0 + k) for k in range(-2, a.n + 1)]
        for p in ("", "segtimeline_1/", "segtimelinenr_1/", "periods_60/segtimeline_1/"):
            paths.append("tsbd_%d/%s%s/Manifest.mpd" % (2 * a.loop, p, a.name))
        for path in paths:
            for now in (nows if path.endswith(".mpd") else nows[-1:]):
                acc.state()
                acc.trans("served twice")
                res = []
                for cfg in (case.truth, case.out):
                    srv.content, srv.cfg = case.content, cfg
                    r = srv.get(path, now)
                    res.append((r.status, r.hlist, r.body))
                if res[0] != res[1]:
                    acc.bad(key + " " + path, "%s is answered %s with a correct configuration and %s with the generated one" % (
                        path, (res[0][0], res[0][2][:60]), (res[1][0], res[1][2][:60])), path=path, now=now)
    finally:
        shutil.rmtree(srv.dir, ignore_errors=True)


def good(acc, asset, key, serve=True):
    acc.state()
    acc.trans("analyzed")
    with Case(asset) as c:
        err = c.run()
        if err:
            acc.bad(key, "analysis of a supported asset (%s) failed: %s" % (key, err), case=key)
            return
        probs = judge(asset, c.out)
        for p in probs:
            acc.bad(key + " " + p[:50], "%s: %s" % (key, p), case=key)
        if serve and not probs:
            serve_both(acc, c, key)


def seglist(tag, durs, per=2):
    out, t = [], 0
    for k, d in enumerate(durs):
        parts = [d // per] * (per - 1) + [d - d // per * (per - 1)]
        out.append((t, [Smp(b"%s%d.%d" % (tag.encode(), k, i), x, 0x02000000 if i == 0 else 0x01010000) for i, x in enumerate(parts)]))
        t += d
    return out


def patterns_shard(acc, part, parts):
    """All duration patterns of n <= 6 segments over three values (drift below 100 ms)."""
    i = 0
    D, ts = 2, 1000
    for n, e in itertools.product(range(1, 7 if not core.thorough() else 8), (20, 1)):
        for pat in itertools.product((-e, 0, e), repeat=n):
            if any(abs(x) >= 100 for x in itertools.accumulate(pat)) or sum(pat) and e == 1 and n > 4:
                continue
            i += 1
            if i % parts != part:
                continue
            durs = [D * ts + x for x in pat]
            first = (1, 0, 7, 65000)[i % 4]
            v = assets.Rep("V1", "video", 90000, 1, assets.even_segs("v", n, D * 90000, 2))
            a = assets.Rep("A1", "audio", ts, 2, seglist("a", durs))
            good(acc, assets.Asset("pat", D, n, first, [v, a] if i % 3 else [a, v]), "durations %s first %d" % (durs, first))
    acc.trace()
    acc.sample("segment duration patterns, part %d" % part)


def jitter_shard(acc, part, parts):
    """All patterns of small gaps and overlaps between segments (the durations do not add up to the decode times)."""
    i = 0
    D, ts = 2, 1000
    for n in range(2, 6):
        for pat in itertools.product((-15, 0, 15), repeat=n - 1):
            for mode in (0, 1):
                i += 1
                if i % parts != part or not any(pat):
                    continue
                segs, t = [], 0
                for k in range(n):
                    g = pat[k] if k < n - 1 else 0
                    # either equal durations, or decode times on the grid and durations that differ
                    segs.append((t, [Smp(b"a%d.0" % k, 1000, 0x02000000), Smp(b"a%d.1" % k, 1000 if mode == 0 else 1000 - g, 0x02000000)]))
                    t += 2000 + (g if mode == 0 else 0)
                a = assets.Rep("A1", "audio", ts, 2, segs)
                v = assets.Rep("V1", "video", 90000, 1, assets.even_segs("v", n, D * 90000, 2))
                good(acc, assets.Asset("jit", D, n, 3, [v, a] if i % 3 else [a, v]), "gaps %s between segments of %s duration" % (pat, ("equal", "differing")[mode]))
    acc.trace()


def shape_shard(acc, part, parts):
    """Packagings and header versions."""
    todo = []
    for ver, dur_in, tv, styp, mts in itertools.product((0, 1), ("trun", "tfhd", "trex"), (0, 1), (None, (b'msdh', b'msix')), (25, 1000, 90000, 10000000)):
        todo.append((ver, dur_in, tv, styp, mts))
    for i, (ver, dur_in, tv, styp, ts) in enumerate(todo):
        if i % parts != part:
            continue
        for n, dur, first in ((1, 2, 1), (3, 1, 0), (4, 6, 5)):
            b = dict(tfdt_version=tv, styp=styp, dur_in=dur_in)
            ini = dict(version=ver, trex_dur=dur * ts if dur_in == "trex" else 77)
            per = 1
            v = [assets.Rep(x, "video", ts, 1 + j, assets.even_segs(x, n, dur * ts, per), dict(b), dict(ini)) for j, x in enumerate(("v_1", "v-2", "V3"))]
            a = assets.Rep("a", "audio", 48000, 2, assets.framed_segs("a", n, dur, 48000, {1: 1000, 2: 3000, 6: 1000}[dur]), dict(tfdt_version=1 - tv))
            for sel, kw in (([*v, a], {}), ([a, *v], dict(tmpl_ts=90000)), (v[:1], {}), ([a], dict(tmpl_ts=7))):
                good(acc, assets.Asset("shape%d" % i, dur, n, first, sel, mpd_kw=kw, tsbd=300),
                     "versions %s durations in %s tfdt %d styp %s timescale %d n=%d first=%d %s %s" % (ver, dur_in, tv, bool(styp), ts, n, first, [r.id for r in sel], kw),
                     serve=(n != 1 or i % 5 == 0))
    acc.trace()


def named_shard(acc, which):
    """The catalogue used by the other checks, and longer assets."""
    if which == "cat":
        for a in (assets.make_sq(), assets.make_odd(), assets.make_nine(), assets.make_enc(), assets.make_runs(), assets.make_frags(), assets.make_boxes(), assets.make_sq("x_2s", 4, 2, first=0)):
            a.tsbd = 300
            good(acc, a, "asset %s" % a.name)
    elif which == "dirs":
        # other files next to the segments
        for extra in ("init2.mp4", "segments.txt", "x1.m4s", "12", "readme.m4s"):
            a = assets.make_sq("dirty")
            acc.state()
            acc.trans("analyzed")
            with Case(a) as c:
                for r in a.reps:
                    with open(os.path.join(c.content, "dirty", r.id, extra), "w") as f:
                        f.write("x")
                err = c.run()
                for p in ([err] if err else judge(a, c.out)):
                    acc.bad("dirs %s %s" % (extra, p[:60]), "with a file %s next to the segments: %s" % (extra, p))
    elif which == "framed":
        for ts, frame, n, dur in ((48000, 1024, 16, 2), (44100, 1050, 9, 1), (22050, 1050, 12, 2), (48000, 1536, 7, 3), (44100, 1260, 25, 1)):
            if n * dur * ts % frame:
                n = frame
                while n > 1 and (n // 2) * dur * ts % frame == 0:
                    n //= 2
            v = assets.Rep("V1", "video", 25, 1, assets.even_segs("v", n, dur * 25, 1))
            a = assets.Rep("A1", "audio", ts, 2, assets.framed_segs("a", n, dur, ts, frame))
            good(acc, assets.Asset("framed", dur, n, 3, [v, a]), "frames of %d at %d, %d segments" % (frame, ts, n), serve=n < 40)
    elif which == "long":
        n = 1200
        v = assets.Rep("V1", "video", 12800, 1, assets.even_segs("v", n, 25600, 1))
        a = assets.Rep("A1", "audio", 1000, 2, seglist("a", [2000 + (20 if k % 3 == 0 else -10) for k in range(n)], 1))
        good(acc, assets.Asset("long", 2, n, 64000, [v, a]), "1200 segments", serve=False)
    acc.trace()
    acc.sample("named assets: %s" % which)


def unequal_shard(acc, part, parts):
    """Representations with different numbers of segments: the loop consists of the segments all of them have."""
    i = 0
    for nv, na, order in itertools.product((1, 2, 3, 5), (1, 2, 3, 5), (0, 1)):
        for nv2 in {nv, 3}:
            if nv == na == nv2:
                continue
            i += 1
            if i % parts != part:
                continue
            n, D = min(nv, na, nv2), 2
            full = [assets.Rep("V1", "video", 90000, 1, assets.even_segs("v", nv, D * 90000, 2)),
                    assets.Rep("V2", "video", 90000, 1, assets.even_segs("w", nv2, D * 90000, 2)),
                    assets.Rep("A1", "audio", 1000, 2, seglist("a", [2000] * na))]
            truth = [assets.Rep(r.id, r.ctype, r.timescale, r.track_id, r.segs[:n]) for r in full]
            order_ = slice(None, None, -1 if order else 1)
            whole = assets.Asset("uneq", D, max(nv, na, nv2), 4, full[order_])
            looped = assets.Asset("uneq", D, n, 4, truth[order_])
            key = "V1 %d V2 %d A1 %d segments%s" % (nv, nv2, na, " audio first" if order else "")
            acc.state()
            acc.trans("analyzed")
            with Case(looped) as c:
                shutil.rmtree(os.path.join(c.content, "uneq"))
                whole.write(c.content, None)
                err = c.run()
                if err:
                    acc.bad(key, "analysis of %s failed: %s" % (key, err), case=key)
                    continue
                for p in judge(looped, c.out):
                    acc.bad(key + " " + p[:50], "%s: %s" % (key, p), case=key)
                serve_both(acc, c, key)
    acc.trace()


def late_shard(acc, part, parts):
    """Content that does not start at time 0."""
    todo = itertools.product((40, 96, 100, 2000, 3000, 1000000, 47000000), ([2000] * 4, [2010, 1990, 2020, 1980], [1940, 2060], [2000]), (0, 1), (0, 1))
    for i, (ms, durs, tv, swap) in enumerate(todo):
        if i % parts != part:
            continue
        n = len(durs)
        v = assets.even_segs("v", n, 2 * 90000, 2)
        v = assets.Rep("V1", "video", 90000, 1, [(t + 90 * ms, s) for t, s in v], dict(tfdt_version=tv))
        a = assets.Rep("A1", "audio", 1000, 2, [(t + ms, s) for t, s in seglist("a", durs)], dict(tfdt_version=tv))
        good(acc, assets.Asset("late", 2, n, 5, [a, v] if swap else [v, a]), "content starting at %g s, durations %s tfdt %d%s" % (ms / 1000, durs, tv, " audio first" if swap else ""))
    acc.trace()


def bad_shard(acc):
    """Content that cannot be looped is refused: no configuration is written."""
    def refused(asset, key, change):
        acc.state()
        acc.trans("refused")
        with Case(asset) as c:
            change(os.path.join(c.content, asset.name))
            err = c.run()
            if err is None or os.path.exists(os.path.join(c.out, asset.name + ".cfg")):
                acc.bad(key, "%s: analysis ended with %s, files %s" % (key, err, os.listdir(c.out)))

    for ri in range(3):
        for k in range(1, 3):           # a segment is missing in the middle
            a = assets.make_sq("gap")
            refused(a, "gap rep %s segment %d" % (a.reps[ri].id, a.first + k),
                    lambda base: os.unlink(os.path.join(base, a.reps[ri].id, "%d.m4s" % (a.first + k))))
    for ct, k, sign in itertools.product(("video", "audio"), range(4), (1, -1)):       # drift of more than 100 ms
        durs = [2000] * 4
        durs[k] += sign * 110
        segs = {"video": seglist("v", [2000] * 4), "audio": seglist("a", [2000] * 4)}
        segs[ct] = seglist("x", durs)
        a = assets.Asset("drift", 2, 4, 1, [assets.Rep("V1", "video", 1000, 1, segs["video"]), assets.Rep("A1", "audio", 1000, 2, segs["audio"])])
        refused(a, "drift %s segment %d %+d" % (ct, k, sign * 110), lambda base: None)
    # different timescales, first numbers
    a = assets.Asset("ts", 2, 2, 1, [assets.Rep("V1", "video", 1000, 1, seglist("v", [2000] * 2)), assets.Rep("V2", "video", 2000, 1, seglist("v", [4000] * 2))])
    refused(a, "timescales differ within a type", lambda base: None)
    a = assets.make_sq("first")
    refused(a, "first numbers differ", lambda base: os.unlink(os.path.join(base, "V1", "1.m4s")))
    acc.trace()


def main():
    jobs = [("patterns_shard", (i, 8)) for i in range(8)] + [("shape_shard", (i, 16)) for i in range(16)]
    jobs += [("jitter_shard", (i, 4)) for i in range(4)]
    jobs += [("late_shard", (i, 4)) for i in range(4)]
    jobs += [("unequal_shard", (i, 4)) for i in range(4)]
    jobs += [("named_shard", (w,)) for w in ("cat", "dirs", "framed", "long")] + [("bad_shard", ())]
    return core.run_check(PID, __name__, jobs,
                          bounds="every duration pattern over three values of up to 6 segments; every pattern of gaps and overlaps of up to 5 segments; 96 packaging/header combinations x 3 sizes x 4 representation "
                                 "selections; audio frame grids; 1200-segment asset; content starting at up to 47000 s; refusals",
                          assumptions=["segments <Representation>/<Number>.m4s with drift below 100 ms",
                                       "segment numbers and repeats below 65536, ticks below 2^32, track timescale above 10"])
