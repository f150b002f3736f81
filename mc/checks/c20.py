"""C20: one well-formed HTTP response for every request of a bounded URL grammar; option order does not matter."""
import itertools
import re
import signal
from xml.etree import ElementTree as ET
from .. import assets, env, core, iso

PID = "C20"
NOW = 1500000003.5
REASON = {200: "OK", 206: "Partial Content", 302: "Found", 404: "Not Found", 410: "Gone", 416: "Range Not Satisfiable",
          400: "Bad Request", 403: "Forbidden", 405: "Method Not Allowed"}
CTYPE = {".mpd": ("application/dash+xml",), ".m4s": ("video/iso.segment", "video/mp4"), ".mp4": ("video/mp4",), ".jpg": ("image/jpeg",),
         ".period": ("text/plain", "application/dash+xml", "application/xml", "text/xml")}

VALUES = ["", "0", "1", "-1", "2", "3", "7", "60", "600", "abc", "1.5", "-0.5", "inf", "nan", "-5", "99999999999999999999", "1e3", "\u0663", "1_0", "_1",
          "u10_d5", "d10_u5", "u0_d0", "u10", "udud_1", "x1_y2", "direct", "direct-head-ntp-sntp-httpxsdate-httpiso", "bogus", "head-", " 1", "+1", "0x10", "%31"]
GOOD = {"start": "1499999400", "ast": "1499999400", "stop": "1500000600", "startrel": "-600", "stoprel": "600", "dur": "1200", "timeoffset": "0", "init": "10",
        "tsbd": "40", "mup": "5", "modulo": "10", "tfdt": "32", "cont": "1", "periods": "60", "xlink": "30", "etp": "30", "etpDuration": "20", "insertad": "1",
        "mpdcallback": "30", "continuous": "1", "segtimeline": "1", "segtimelinenr": "1", "baseurl": "u50_d10", "peroff": "0", "scte35": "2", "utc": "direct-head",
        "snr": "5", "ato": "1.5", "spd": "8", "sidx": "1", "segtimelineloss": "1", "sts": "1500000000", "sid": "abc", "chunkdur": "1"}
ALT = {"start": "1499999401", "ast": "1500000000", "stop": "1499999500", "timeoffset": "1499999000", "tsbd": "0", "periods": "0", "ato": "inf", "snr": "-1",
       "baseurl": "d5_u55", "utc": "bogus", "chunkdur": "x", "dur": "4", "mup": "0", "insertad": "4", "segtimeline": "0", "modulo": "60", "etpDuration": "90",
       "start_bad": "x"}
ALIAS = [{"start", "ast", "startrel"}, {"stop", "stoprel"}]
RES = ["Manifest.mpd", "V1/init.mp4", "V1/750000000.m4s", "A1/%d.m4s"]


def catalogue():
    return assets.make_thumb("sq")


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def known_keys():
    from dashlivesim.dashlib.configprocessor import ConfigProcessor
    return list(ConfigProcessor.url_cfg_keys)


def fetch(acc, srv, path, now=NOW, raw_env=None, **kw):
    """Request with a watchdog; the WSGI protocol monitor is applied to the answer."""
    env.setup()
    from dashlivesim.mod_wsgi import mod_dashlivesim
    e = srv.environ(path, **kw)
    if raw_env:
        for k, v in raw_env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    key = path + ("|" + repr(raw_env) if raw_env else "") + ("|" + repr(kw) if kw else "")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(30)
    acc.state()
    try:
        r = env.call(mod_dashlivesim.application, e, now)
    except Hang:
        acc.bad(key, "no answer within 30 s", path=path)
        return None
    finally:
        signal.alarm(0)
    monitor(acc, key, path, r, e)
    return r


def monitor(acc, key, path, r, e):
    def bad(t):
        acc.bad(key, t, path=path)
    if r.error is not None:
        return bad("an exception escaped: %r" % r.error)
    if len(r.starts) != 1:
        return bad("%d response starts" % len(r.starts))
    st, hl, before = r.starts[0]
    if before:
        return bad("body data before the response start")
    if not isinstance(st, str) or not re.match(r"^\d{3} \S", st) or REASON.get(r.status) != r.reason:
        return bad("status line %r" % (st,))
    acc.trans(str(r.status))
    names = [h[0].lower() for h in hl]
    if len(set(names)) != len(names):
        bad("repeated headers %s" % names)
    for k, v in hl:
        if not isinstance(k, str) or not isinstance(v, str) or "\n" in v or "\r" in v:
            return bad("header %r: %r" % (k, v))
    for t, part in r.chunks:
        if not isinstance(part, bytes):
            return bad("body part %r" % (part,))
    h = r.headers
    for k, v in (("access-control-allow-origin", "*"), ("cache-control", "no-cache"), ("pragma", "no-cache")):
        if h.get(k) != v:
            bad("header %s: %s" % (k, h.get(k)))
    if "content-length" in h:
        if h["content-length"] != str(len(r.body)):
            bad("Content-Length %s for %d bytes" % (h["content-length"], len(r.body)))
    elif "chunkdur_" not in path or r.status != 200 or not path.split("?")[0].split(";")[0].endswith(".m4s"):
        bad("no Content-Length")
    last = path.split("?")[0].split("#")[0].split("/")[-1].split(";")[0]
    ext = "." + last.rsplit(".", 1)[1] if "." in last.lstrip(".") else ""
    ct = h.get("content-type")
    if r.status in (200, 206):
        if ext not in CTYPE:
            return bad("answered %d for extension %r" % (r.status, ext))
        if ct not in CTYPE[ext]:
            bad("content type %s for %s" % (ct, ext))
        if not r.body:
            return bad("empty body labelled %d" % r.status)
        if r.status == 206:
            if "HTTP_RANGE" not in e or "content-range" not in h:
                bad("206 with Content-Range %s to Range %s" % (h.get("content-range"), e.get("HTTP_RANGE")))
            return
        if "content-range" in h:
            bad("200 with Content-Range")
        try:
            if ext == ".mpd":
                if not ET.fromstring(r.body).tag.endswith("}MPD"):
                    bad("not an MPD: %r" % r.body[:60])
            elif ext == ".period":
                if not ET.fromstring(r.body).tag.endswith(("Period", "}MPD")):       # without xlink_ the whole MPD
                    bad("not a Period: %r" % r.body[:60])
            elif ext == ".mp4":
                if [b.typ for b in iso.parse(r.body)][:1] != [b"ftyp"]:
                    bad("not an init segment: %r" % r.body[:60])
            elif ext == ".m4s":
                if b"moof" not in [b.typ for b in iso.parse(r.body)]:
                    bad("not a media segment: %r" % r.body[:60])
            elif not r.body.startswith(b"\xff\xd8"):
                bad("not an image: %r" % r.body[:60])
        except (ValueError, ET.ParseError) as x:
            bad("body labelled 200 is broken (%s): %r" % (x, r.body[:60]))
    elif r.status == 302:
        if "location" not in h:
            bad("redirect without Location")
    else:
        if ct not in ("text/plain",):
            bad("content type %s for an error" % ct)
        if not r.body.strip():
            bad("error without explanation")
        if b"Traceback" in r.body or b"UnboundLocalError" in r.body:
            bad("error exposes a traceback: %r" % r.body[:80])


def resources(snr=0):
    n = 1500000002 // 2 - 1
    return ["Manifest.mpd", "V1/init.mp4", "V1/%d.m4s" % n, "V1__A1/%d.m4s" % n, "thumbs/%d.jpg" % n, "Manifest.mpd+p0.period"]


def shard_single(acc, lo, hi):
    srv = env.Server([catalogue()])
    with srv:
        for key in known_keys()[lo:hi]:
            vals = VALUES + [v for v in (GOOD.get(key), ALT.get(key)) if v]
            opts = ["%s_%s" % (key, v) for v in vals] + [key, key.upper() + "_1", key + "_1_2"]
            for o in opts:
                for res in resources() + ["A1/t1.m4s", "V1__A1/init.mp4", "nope/1.m4s", "V1/999999999999.m4s", "x", "V1/1.txt"]:
                    fetch(acc, srv, "/livesim/%s/sq/%s" % (o, res))
                # in the middle of and after the content
                fetch(acc, srv, "/livesim/sq/%s/Manifest.mpd" % o)
                fetch(acc, srv, "/livesim/sq/%s" % o)
                fetch(acc, srv, "/livesim/%s" % o)
                fetch(acc, srv, "/livesim/%s/" % o)
            acc.trace()
            acc.sample("%s with %d values x 12 resources" % (key, len(opts)))


def canon(body):
    """Sort the options in every URL."""
    def f(m):
        return "/livesim/" + "/".join(sorted(x for x in m.group(1).split("/") if x)) + "/sq"
    return re.sub(r"/livesim/([^<\"]*?)/?sq\b", f, body.decode("utf-8", "replace"))


def same(acc, srv, opts, res):
    """All orders of the options give the same response."""
    got = []
    for perm in itertools.permutations(opts):
        p = "/livesim/%s/sq/%s" % ("/".join(perm), res)
        r = fetch(acc, srv, p)
        if r is not None:
            got.append((p, r))
    for p, r in got[1:]:
        p0, r0 = got[0]
        if r.status != r0.status:
            acc.bad(p + "#order", "answered %s, but %s with the options in another order (%s)" % (r.status, r0.status, p0), path=p)
        elif r.status == 200:
            a, b = (r.body, r0.body) if not res.endswith((".mpd", ".period")) else (canon(r.body), canon(r0.body))
            if a != b or sorted(r.headers.items()) != sorted(r0.headers.items()) and a is not b and not res.endswith((".mpd", ".period")):
                acc.bad(p + "#order", "response differs with the options in another order (%s)" % p0, path=p)


def shard_pairs(acc, part, parts):
    keys = known_keys()
    with env.Server([catalogue()]) as srv:
        for i, (a, b) in enumerate(itertools.combinations(keys, 2)):
            if i % parts != part:
                continue
            va = [GOOD.get(a, "1")] + ([ALT[a]] if a in ALT else [])
            vb = [GOOD.get(b, "1")] + ([ALT[b]] if b in ALT else [])
            for x in va:
                for y in vb:
                    opts = ("%s_%s" % (a, x), "%s_%s" % (b, y))
                    n = number(dict([(a, x), (b, y)]))
                    for res in ["Manifest.mpd", "V1/init.mp4", "V1/%d.m4s" % n, "thumbs/%d.jpg" % n, "Manifest.mpd+p0.period"]:
                        if any(a in s and b in s for s in ALIAS):
                            for perm in (opts, opts[::-1]):
                                fetch(acc, srv, "/livesim/%s/sq/%s" % ("/".join(perm), res))
                        else:
                            same(acc, srv, opts, res)
            acc.trace()
        acc.sample("ordered pairs of options")


def number(o):
    """A number likely to be available with these options (so that the 200 path is explored as well)."""
    start = next((o[k] for k in ("start", "ast") if k in o), None)
    ast = int(start) // 2 * 2 if start else 0
    if "startrel" in o:
        ast = (int(NOW) - 600) // 2 * 2
    if "tfdt" in o:
        ast = int(NOW) // 10800 * 10800
    n = (int(NOW) - ast) // 2 - 1
    snr = o.get("snr")
    if snr is not None:
        n += 1 if snr == "-1" else int(snr)
    if "timeoffset" in o:
        n += (ast - int(o["timeoffset"])) // 2
    if "modulo" in o:
        n = (int(NOW) % (60 * int(o["modulo"]))) // 2 - 1
    return max(n, 0)


def shard_triples(acc, part, parts, all_orders):
    keys = known_keys()
    with env.Server([catalogue()]) as srv:
        for i, tri in enumerate(itertools.combinations(keys, 3)):
            if i % parts != part or any(len(s & set(tri)) > 1 for s in ALIAS):
                continue
            o = {k: GOOD.get(k, "1") for k in tri}
            opts = tuple("%s_%s" % kv for kv in o.items())
            res = ["Manifest.mpd", "V1/%d.m4s" % number(o)]
            for x in res:
                if all_orders:
                    same(acc, srv, opts, x)
                else:
                    fetch(acc, srv, "/livesim/%s/sq/%s" % ("/".join(opts), x))
        acc.trace()
        acc.sample("triples of options")


ALPHA = ["", ".", "..", "sq", "V1", "A1__V1", "V1__V1__A1", "__", "nope", "749999999.m4s", "0.m4s", "-1.m4s", "x.m4s", ".m4s", "t.m4s", "t0.m4s", "t1e9.m4s", "init.mp4", ".mp4", "Manifest.mpd",
         ".mpd", "Nope.mpd", "Manifest.mpd+p0.period", "Manifest.mpd+.period", "+.period", ".period", "thumbs", "749999999.jpg", ".jpg", "start_1", "start", "_", "snr_x", "a.b.c",
         "%00", "\x00.m4s", "\u00e9.m4s", "\u20ac", "x;y.m4s", "%2e%2e", "0.m4s.mpd", "99999999999999999999999999.m4s", "1e5.m4s", "0x1.m4s", "\u0661.m4s", "1_0.m4s", " 1.m4s"]


def shard_paths(acc, first, depth):
    small = ["", "..", "sq", "V1", "749999999.m4s", "init.mp4", "Manifest.mpd", "x.m4s", "start_1", "segtimeline_1", "nope"]
    with env.Server([catalogue()]) as srv:
        for n in range(0, depth):
            for rest in itertools.product(ALPHA if n < 2 or depth > 3 else ALPHA[:12], repeat=n):
                p = "/".join((first,) + rest)
                fetch(acc, srv, "/livesim/" + p)
                if n < 2:
                    fetch(acc, srv, "/livesim/sq/" + p)
                    fetch(acc, srv, "/" + p)
                    fetch(acc, srv, "/livesim/segtimeline_1/periods_60/sq/" + p)
        if first in small:
            for rest in itertools.product(small, repeat=3):
                fetch(acc, srv, "/livesim/" + "/".join((first,) + rest))
        acc.trace()
        acc.sample("all paths starting with %r" % first)


def shard_headers(acc):
    uris = ["", "/", "//", "///", "*", "livesim", "/livesim", "/livesim/", "//[", "//[x/y.mpd", "//[::1]/livesim/sq/Manifest.mpd", "http://h/livesim/sq/Manifest.mpd", "http://[x", "/livesim/sq/Manifest.mpd?",
            "/livesim/sq/Manifest.mpd?a=b&c", "/livesim/sq/Manifest.mpd?%zz=%ff", "/livesim/sq/Manifest.mpd?=&&=", "/livesim/sq/Manifest.mpd#x", "/livesim/sq/Manifest.mpd;p",
            "/livesim/sq/Manifest.mpd?" + "a=b&" * 2000, "/livesim/sq/V1/749999999.m4s?x", "/livesim/" + "a/" * 500, "/livesim/" + "x" * 5000 + ".m4s",
            "/livesim/sq/V1/" + "9" * 5000 + ".m4s", "/livesim/start_" + "9" * 5000 + "/sq/Manifest.mpd", "/livesim/sq/%ff%fe/1.m4s", "/livesim/{0}/%s%d/Manifest.mpd"]
    ranges = [None, "", "bytes=0-1", "bytes=-1", "bytes=9999999999-", "bytes=a-b", "bytes=0-1,3-4", "items=0-1", "bytes", "bytes=--", "bytes=5-2", "bytes=" + "9" * 6000 + "-"]
    envs = [{}, {"HTTP_HOST": None, "SERVER_NAME": "srv", "SERVER_PORT": "80"}, {"HTTP_HOST": ""}, {"HTTP_HOST": "[::1]:80"}, {"HTTP_HOST": "a b<c>&\""}, {"QUERY_STRING": None},
            {"QUERY_STRING": "a=%ff"}, {"wsgi.url_scheme": None}, {"wsgi.url_scheme": "https"}]
    with env.Server([catalogue()]) as srv:
        for u in uris:
            for rg in ranges:
                for ev in envs:
                    if (rg is not None and ev) and u not in uris[:2]:
                        continue
                    x = dict(ev)
                    if rg is not None:
                        x["HTTP_RANGE"] = rg
                    fetch(acc, srv, u, raw_env=x or None)
        for res in resources():
            for opt in ("", "chunkdur_1/", "segtimeline_1/", "start_9999999999/", "periods_60/", "nope/"):
                for rg in ranges:
                    for ev in envs:
                        x = dict(ev)
                        if rg is not None:
                            x["HTTP_RANGE"] = rg
                        fetch(acc, srv, "/livesim/%ssq/%s" % (opt, res), raw_env=x or None)
        acc.trace()
        acc.sample("request URI forms x Range headers x environments")


def main():
    n = len(known_keys()) if env.setup() is None else 0
    jobs = [("shard_single", (i, i + 1)) for i in range(n)]
    jobs += [("shard_pairs", (i, 16)) for i in range(16)]
    jobs += [("shard_triples", (i, 16, core.thorough())) for i in range(16)]
    jobs += [("shard_paths", (a, 4 if core.thorough() else 3)) for a in ALPHA]
    jobs += [("shard_headers", ())]
    return core.run_check(PID, __name__, jobs,
                          bounds="%d option keys x ~37 values x 12 resources; all ordered option pairs x up to 4 value combinations x 5 resources; all option triples; all paths up to %d components "
                                 "over 46 components; 27 request-URI forms x 12 Range headers x 9 environments" % (n, 4 if core.thorough() else 3),
                          assumptions=["request line and headers contain no CR/LF (guaranteed by the HTTP server)"])
