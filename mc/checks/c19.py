"""C19: byte-range requests."""
import re
from .. import assets, env, core

PID = "C19"


def asset():
    return assets.make_thumb("thumb")


NOW = 1600000001.0
RES = ["thumb/V1/799999999.m4s", "thumb/V1/init.mp4", "thumb/Manifest.mpd", "scte35_1/thumb/V1/799999999.m4s", "thumb/thumbs/799999999.jpg",
       "snr_2/start_1599999990/thumb/V1__A1/3.m4s"]


def full_of(srv, path):
    r = srv.get(path, NOW)
    assert r.status == 200, (path, r)
    return r


def expect(length, header):
    """(start, end) of a valid satisfiable single range, else None (complete response or 416)."""
    m = re.match(r"^bytes=(\d*)-(\d*)$", header)
    if not m or m.groups() == ("", ""):
        return None
    a, b = m.groups()
    if a == "":
        n = int(b)
        return (max(0, length - n), length - 1) if n > 0 and length > 0 else None
    a = int(a)
    if b != "" and int(b) < a or a >= length:
        return None
    return a, (min(int(b), length - 1) if b != "" else length - 1)


def check(acc, srv, path, full, header, prefix=True):
    acc.state()
    r = srv.get(path, NOW, rng=header)
    want = expect(len(full.body), header)
    key = "%s [%s]" % (path, header)
    body = full.body
    probs = []
    if r.error is not None or len(r.starts) != 1:
        probs.append("exception %r" % (r.error,))
    else:
        for k, v in r.hlist:
            if not isinstance(k, str) or not isinstance(v, str):
                probs.append("header %s is %r" % (k, v))
        if r.headers.get("content-length") != str(len(r.body)):
            probs.append("Content-Length %s, body %d" % (r.headers.get("content-length"), len(r.body)))
        cr = r.headers.get("content-range")
        if want is None:
            acc.trans("whole")
            ok = (r.status == 200 and r.body == body and cr is None) or r.status == 416
            if not ok:
                probs.append("status %s, %d of %d bytes, Content-Range %s for a header that is not a satisfiable single range" % (
                    r.status, len(r.body), len(body), cr))
        else:
            acc.trans("partial")
            a, b = want
            if r.status != 206:
                probs.append("status %s" % r.status)
            if r.body != body[a:b + 1]:
                probs.append("%d bytes that are not bytes %d-%d" % (len(r.body), a, b))
            if cr != "bytes %d-%d/%d" % (a, b, len(body)):
                probs.append("Content-Range %s for bytes %d-%d/%d" % (cr, a, b, len(body)))
            if r.headers.get("content-type") != full.headers.get("content-type"):
                probs.append("content type %s" % r.headers.get("content-type"))
    if probs:
        acc.bad(key, "; ".join(str(p) for p in probs), path=path, header=header, now=NOW)


HUGE = {10 ** 12, 10 ** 19, 10 ** 30} | {2 ** k + x for k in (15, 16, 31, 32, 33, 53, 63, 64) for x in (-1, 0, 5)}


def positions(n, step):
    return sorted({0, 1, 2, 3, 7, 8, n // 2, n - 2, n - 1, n, n + 1, 2 * n} | HUGE | set(range(0, n, step)))


def shard(acc, ri, part, parts):
    with env.Server([asset()]) as srv:
        path = RES[ri]
        full = full_of(srv, path)
        n = len(full.body)
        step = 1 if core.thorough() and n < 700 else max(1, n // 120) if not core.thorough() else max(1, n // 400)
        pos = [p for p in positions(n, step) if p >= 0]
        if n < 30:
            pos = list(range(0, n + 3)) + sorted(HUGE)
        for i, a in enumerate(pos):
            if i % parts != part:
                continue
            check(acc, srv, path, full, "bytes=%d-" % a)
            check(acc, srv, path, full, "bytes=-%d" % a)
            for b in pos:
                check(acc, srv, path, full, "bytes=%d-%d" % (a, b))
        acc.trace()
        acc.sample("%s (%d bytes): %d x %d (first,last) pairs, open and suffix ranges" % (path, n, len(pos), len(pos)))


UNITS = ["bytes", "", "items", "byte", "bytes bytes"]
SEPS = ["=", "", ":", "=="]
FIRST = ["", "0", "5", "-", "x", "1.5", "99999999", "-3"]
DASH = ["-", "", "--", "~"]
LAST = ["", "3", "9", "x", "99999999999999999999999", "-"]
TAIL = ["", ",", ",7-9", ", 0-0", ";q", "\x00"]


def grammar(acc, ri, u):
    with env.Server([asset()]) as srv:
        path = RES[ri]
        full = full_of(srv, path)
        for s in SEPS:
            for f in FIRST:
                for d in DASH:
                    for la in LAST:
                        for t in TAIL:
                            h = UNITS[u] + s + f + d + la + t
                            ok = re.match(r"^bytes=(\d*)-(\d*)$", h)
                            if not ok and re.match(r"^\s*bytes\s*=", h) and "," in h and re.fullmatch(r"[\d\s,-]*", h.split("=", 1)[1]):
                                if h.endswith(",") or True:
                                    pass        # several ranges: complete response (multipart is not supported)
                            check(acc, srv, path, full, h)
        for h in ("bytes=" + "9" * 5000 + "-", "bytes=-" + "9" * 5000, "bytes=0-" + "9" * 5000) if u == 0 else ():
            r = srv.get(path, NOW, rng=h)
            acc.state()
            acc.trans("whole")
            if r.error is not None or not (r.status == 416 or r.body == full.body and r.status in (200, 206)):
                acc.bad("%s [%s...]" % (path, h[:12]), "huge range: %s %r" % (r.status, r.error), path=path)
        acc.trace()


def main():
    parts = 4
    jobs = [("shard", (i, p, parts)) for i in range(len(RES)) for p in range(parts)]
    jobs += [("grammar", (i, u)) for i in (0, 2) for u in range(len(UNITS))]
    return core.run_check(PID, __name__, jobs,
                          bounds="6 resources (media, init, MPD, thumbnail, multiplexed, with emsg); every pair of range positions on a grid including all "
                                 "boundary positions; %d malformed headers" % (2 * len(UNITS) * len(SEPS) * len(FIRST) * len(DASH) * len(LAST) * len(TAIL)),
                          assumptions=["complete response or 416 is accepted for anything but a satisfiable single byte range"])
