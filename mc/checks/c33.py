"""C33: the stand-alone server answers like the WSGI application, streams, survives disconnecting clients; the application obeys the WSGI rules."""
import os
import runpy
import socket
import struct
import sys
import threading
import warnings
from urllib.parse import unquote
from wsgiref.util import setup_testing_defaults
from wsgiref.validate import validator
from .. import assets, env, core

PID = "C33"
HOSTS = ["h.example.com", "localhost:8059", None]
N1 = 1600000001.0
RANGES = [None, "bytes=0-9", "bytes=5-", "bytes=-7", "bytes=9-2", "items=0-1"]
PLAIN = ["sq/Manifest.mpd", "sq/V1/init.mp4", "sq/V1/799999999.m4s", "sq/V1/799999900.m4s", "sq/A1/800000010.m4s", "sq/V1__A1/init.mp4", "sq/V1__A1/799999999.m4s",
         "sq/thumbs/799999999.jpg", "sq/thumbs/1.jpg", "segtimeline_1/sq/Manifest.mpd", "segtimeline_1/sq/V1/t143999999820000.m4s",
         "segtimelinenr_1/snr_3/sq/Manifest.mpd", "periods_60/sq/Manifest.mpd", "periods_60/xlink_30/sq/Manifest.mpd",
         "periods_60/xlink_60/sq/Manifest.mpd+p8888888.period", "periods_60/mpdcallback_60/sq/Manifest.mpd", "start_1599999990/sq/Manifest.mpd",
         "startrel_-20/sq/Manifest.mpd", "startrel_-20/stoprel_20/sq/Manifest.mpd", "baseurl_u20_d10/baseurl_d20_u10/sq/Manifest.mpd",
         "baseurl_u20_d10/sq/V1/799999999.m4s", "scte35_2/sq/Manifest.mpd", "utc_direct-head-http-xsd/sq/Manifest.mpd", "tfdt_32/sq/Manifest.mpd",
         "modulo_10/sq/Manifest.mpd", "snr_0/ato_1/chunkdur_1/sq/Manifest.mpd", "sq/V9/1.m4s", "nosuch/Manifest.mpd", "sq/Other.mpd", "", "sq", "sq/", "sq/V1/init.webm",
         "sq/V1/x.m4s", "sq/V1/-1.m4s", "tsbd_x/sq/Manifest.mpd", "periods_7/sq/Manifest.mpd", "sq/V1/799999999.m4s?a=b", "sq/Manifest.mpd?x=1&y=%20",
         "sq/V%31/799999999.m4s", "s%71/Manifest.mpd", "sq/%2e%2e/Manifest.mpd", "sq/V1/%00.m4s", "sq/%C3%A5/1.m4s", "sq/V1%2F799999999.m4s", "sq/V1/799999999.m4s%3Fa", "%5B/Manifest.mpd"]
CHUNKED = [("ato_1.5/chunkdur_0.5/sq/V1/%d.m4s", 2), ("ato_1.5/chunkdur_0.5/sq/A1/%d.m4s", 2), ("snr_1/ato_2/chunkdur_2/sq/V1/%d.m4s", 2),
           ("start_1599999990/ato_inf/chunkdur_0.25/sq/A1/%d.m4s", 2), ("ato_5.5/chunkdur_0.5/six/V1/%d.m4s", 6),
           ("ato_5/chunkdur_1/six/V1/%d.m4s", 6), ("ato_3/chunkdur_2.5/sidx_1/six/V1/%d.m4s", 6), ("scte35_2/ato_4/chunkdur_2/six/V1/%d.m4s", 6),
           ("ato_1/chunkdur_0.25/sq/A1/%d.m4s", 2), ("ato_1/chunkdur_5/sq/A1/%d.m4s", 2), ("ato_1/chunkdur_1/sq/V1__A1/%d.m4s", 2)]


def catalogue():
    six = assets.make_simple("six", 6, 3, vts=1000)
    six.reps[0].segs = assets.even_segs("v", 3, 6000, 12)
    return [assets.make_thumb("sq"), six]


class Dead(Exception):
    """The server does not answer any more."""


class Standalone:
    """The program's own server, run in a thread below the virtual clock."""

    def __init__(self, srv):
        self.started = False
        for _ in range(40):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.error = None
            self.thread = threading.Thread(target=self.run, args=(srv,), daemon=True)
            self.thread.start()
            for i in range(2000):
                if not self.thread.is_alive():
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    self.started = True
                    return
                except OSError:
                    env._real_sleep(0.005)
            if not (isinstance(self.error, OSError) and self.error.errno == 98):
                return

    def run(self, srv):
        sys.argv = ["mod_dashlivesim", "-d", srv.cfg, "-c", srv.content, "--host", "127.0.0.1", "--port", str(self.port)]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_module("dashlivesim.mod_wsgi.mod_dashlivesim", run_name="__main__")
        except BaseException as e:
            self.error = e

    def request(self, path, now, host, rng=None, method="GET", hook=None, version="1.1"):
        """(status line, headers, body) or None if the server sent no complete answer. hook(state) runs whenever the server sleeps."""
        self.got = b""
        self.cut = False
        self.closed = threading.Event()
        lines = ["%s %s HTTP/%s" % (method, path, version)]
        if host is not None:
            lines.append("Host: " + host)
        if rng is not None:
            lines.append("Range: " + rng)
        env.CLOCK.now, env.CLOCK.sleeps = now, []
        env.CLOCK.on_sleep = (lambda: hook(self)) if hook else None
        try:
            self.sock = socket.create_connection(("127.0.0.1", self.port), 30)
            self.sock.settimeout(30)
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.sock.sendall(("\r\n".join(lines) + "\r\n\r\n").encode("latin-1"))
            while True:
                d = self.sock.recv(1 << 16)
                if not d:
                    break
                self.got += d
        except OSError:
            if not self.cut:
                return None
        finally:
            self.sock.close()
            self.closed.set()
        head, sep, body = self.got.partition(b"\r\n\r\n")
        if not sep:
            return None
        hl = head.decode("latin-1").split("\r\n")
        return hl[0], [tuple(x.split(": ", 1)) for x in hl[1:]], body

    def body_length(self):
        head, sep, body = self.got.partition(b"\r\n\r\n")
        return len(body) if sep else -1


def direct(srv, path, now, host, rng, query):
    e = srv.environ(unquote(path, "iso-8859-1"), rng, False, "", "h")
    e["QUERY_STRING"] = query
    e["SERVER_NAME"], e["SERVER_PORT"] = socket.getfqdn("127.0.0.1"), "0"
    if host is None:
        e.pop("HTTP_HOST")
    else:
        e["HTTP_HOST"] = host
    env.setup()
    from dashlivesim.mod_wsgi import mod_dashlivesim
    saved = env.CLOCK.on_sleep
    env.CLOCK.on_sleep = None
    try:
        return env.call(mod_dashlivesim.application, e, now)
    finally:
        env.CLOCK.on_sleep = saved


def compare(acc, key, got, want, method="GET"):
    if got is None:
        acc.bad(key, "no complete answer from the stand-alone server")
        if acc.nviol > 4:
            raise Dead()
        return
    line, headers, body = got
    low = {k.lower(): v for k, v in headers}
    probs = []
    parts = line.split(" ", 2)
    if len(parts) != 3 or parts[1] != str(want.status) or parts[2] != want.reason:
        probs.append("status line %r, the application says %s %s" % (line, want.status, want.reason))
    for k, v in want.hlist:
        if low.get(k.lower()) != v:
            probs.append("%s: %r instead of %r" % (k, low.get(k.lower()), v))
    extra = set(low) - {k.lower() for k, _ in want.hlist} - {"date", "server", "connection", "content-length"}
    if extra:
        probs.append("additional headers %s" % sorted(extra))
    if len(low) != len(headers):
        probs.append("repeated headers")
    if method == "GET" and body != want.body:
        probs.append("%d bytes of body, the application gives %d" % (len(body), len(want.body)))
    if "content-length" in low and method == "GET" and low["content-length"] != str(len(body)):
        probs.append("Content-Length %s for %d bytes" % (low["content-length"], len(body)))
    if probs:
        acc.bad(key, "; ".join(probs), request=key)


def served(acc, part, parts):
    try:
        served_(acc, part, parts)
    except Dead:
        pass


def chunked(acc, ci):
    try:
        chunked_(acc, ci)
    except Dead:
        pass


def served_(acc, part, parts):
    with env.Server(catalogue()) as srv, env.quiet(False):
        sa = Standalone(srv)
        if not sa.started:
            return acc.bad("start", "the stand-alone server does not start: %r" % (sa.error,))
        i = 0
        for p in PLAIN:
            for now in (N1, 1600000000.0, 5.25):
                for rng in RANGES:
                    for host in HOSTS:
                        i += 1
                        if i % parts != part:
                            continue
                        path, _, query = ("/livesim/" + p).partition("?")
                        full = path + ("?" + query if query else "")
                        method = "HEAD" if i % 7 == 3 else "GET"
                        version = "1.0" if host is None else "1.1"
                        acc.state()
                        acc.trans("request")
                        got = sa.request(full, now, host, rng, method, version=version)
                        want = direct(srv, path, now, host, rng, query)
                        compare(acc, "%s %s host=%s range=%s @%s" % (method, full, host, rng, now), got, want, method)
        acc.trace()
        acc.sample("%d paths x 3 instants x %d Range headers x %d hosts over HTTP" % (len(PLAIN), len(RANGES), len(HOSTS)))


def times(dur):
    """Arrival instants relative to the start of the segment."""
    return [0.0, 0.1, 0.3, dur / 2, dur - 0.25, dur, dur + 1]


def chunked_(acc, ci):
    path, dur = CHUNKED[ci]
    with env.Server(catalogue()) as srv, env.quiet(False):
        sa = Standalone(srv)
        if not sa.started:
            return acc.bad("start", "the stand-alone server does not start: %r" % (sa.error,))
        for rel in times(dur):
            snr = 1 if "snr_1" in path else 0
            ast = 1599999990 if "start_" in path else 0
            k = (1600000002 - ast) // dur
            now = ast + k * dur + rel
            p = "/livesim/" + path % (k + snr)
            before = []
            for method in ("GET", "HEAD"):
                want = direct(srv, p, now, HOSTS[0], None, "")
                sleeps = list(env.CLOCK.sleeps)
                acc.state()
                if want.status == 404:
                    acc.trans("not yet")
                    compare(acc, "%s@%s" % (p, now), sa.request(p, now, HOSTS[0], None, method), want, method)
                    continue
                # bytes that have left the server when it begins its j-th wait
                before, total, seen, t = [], 0, 0, now
                for when, part in want.chunks:
                    if when > t:
                        before.append(total)
                        t = when
                    total += len(part)
                state = {"n": 0, "late": None}

                def hook(sa):
                    need = before[state["n"]] if state["n"] < len(before) else total
                    state["n"] += 1
                    if not need:
                        return          # the headers may leave with the first part
                    for _ in range(4000):
                        if sa.body_length() >= need:
                            return
                        env._real_sleep(0.001)
                    state["late"] = state["late"] or (state["n"], need, sa.body_length())
                got = sa.request(p, now, HOSTS[0], None, method, hook=hook if method == "GET" else None)
                acc.trans("chunked %d waits" % min(len(before), 3))
                key = "chunks of %s %s@%s" % (method, p, now)
                compare(acc, key, got, want, method)
                if method == "GET":
                    if state["late"]:
                        acc.bad(key, "at wait %d the client should have %d bytes of the body, and has %d" % state["late"], path=p, now=now)
                    if [round(x, 6) for x in env.CLOCK.sleeps] != [round(x, 6) for x in sleeps]:
                        acc.bad(key + "#s", "waits %s, the application alone %s" % (env.CLOCK.sleeps, sleeps), path=p, now=now)
                    if state["n"] != len(before):
                        acc.bad(key + "#n", "%d waits, expected %d" % (state["n"], len(before)), path=p, now=now)
            # the client goes away at each wait; whatever comes next is answered as usual
            for cut in range(len(before)):
                st = {"n": 0}

                def leave(sa):
                    st["n"] += 1
                    if st["n"] == cut + 1:
                        sa.cut, closed = True, sa.closed
                        sa.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        sa.sock.shutdown(socket.SHUT_RD)        # wakes the client, which resets the connection
                        closed.wait(10)
                sa.request(p, now, HOSTS[0], hook=leave)
                sa.request("/livesim/", now, HOSTS[0])          # answered when the server is through with the one before
                acc.trans("disconnect")
                for p2 in (p, "/livesim/sq/Manifest.mpd"):
                    want2 = direct(srv, p2, now, HOSTS[0], None, "")
                    acc.state()
                    compare(acc, "%s after the client of %s@%s left at wait %d" % (p2, p, now, cut), sa.request(p2, now, HOSTS[0]), want2)
            acc.trace()
        acc.sample("%s: arrivals %s, disconnect at each wait" % (path, times(dur)))


def rules(acc, limit, part, parts):
    """wsgiref.validate around the application; the iterator is closed after each possible number of parts."""
    from dashlivesim.mod_wsgi import mod_dashlivesim
    mod_dashlivesim.MAX_SESSION_LENGTH = limit
    paths = [p for p in PLAIN] + [p % (800000000 // 3 if d == 6 else 800000000) for p, d in CHUNKED if "start" not in p and "snr" not in p]
    if limit:
        paths += ["sts_1599999990/sid_ab/" + p for p in PLAIN[:12]] + ["sts_1/" + PLAIN[0], "sts_1700000000/" + PLAIN[2]]
    i = 0
    with env.Server(catalogue()) as srv, env.quiet(False), warnings.catch_warnings():
        warnings.simplefilter("error")
        for p in paths:
            for rng in RANGES:
                for scheme in ("http", "https"):
                    for host in HOSTS:
                        i += 1
                        if i % parts != part:
                            continue
                        path, _, query = ("/livesim/" + p).partition("?")
                        for stop in (None, 0, 1, 2):
                            key = "rules %s %s://%s range=%s limit=%d stop=%s" % (p, scheme, host, rng, limit, stop)
                            e = {"HTTP_HOST": host or "x", "REQUEST_URI": path + ("?" + query if query else ""), "PATH_INFO": unquote(path, "iso-8859-1"), "SCRIPT_NAME": "",
                                 "QUERY_STRING": query, "VOD_CONF_DIR": srv.cfg, "CONTENT_ROOT": srv.content, "wsgi.url_scheme": scheme, "REQUEST_METHOD": "GET"}
                            if rng:
                                e["HTTP_RANGE"] = rng
                            setup_testing_defaults(e)
                            if host is None:
                                del e["HTTP_HOST"]
                            env.CLOCK.now, env.CLOCK.sleeps = N1, []
                            starts = []

                            def start_response(status, headers, exc_info=None):
                                starts.append((status, headers))
                                return lambda data: None
                            acc.state()
                            acc.trans("validated" if stop is None else "closed early")
                            n = 0
                            try:
                                it = validator(mod_dashlivesim.application)(e, start_response)
                                try:
                                    for _ in it:
                                        n += 1
                                        if n == stop:
                                            break
                                        if stop == 0:
                                            break
                                finally:
                                    it.close()
                            except env.Hang:
                                raise
                            except BaseException as ex:
                                acc.bad(key, "WSGI rules: %s: %s" % (type(ex).__name__, ex), path=p)
                            if len(starts) != 1:
                                acc.bad(key + "#", "start_response was called %d times" % len(starts), path=p)
        acc.trace()
        acc.sample("%d paths x %d Range headers x 2 schemes x 3 hosts below wsgiref.validate, limit %d" % (len(paths), len(RANGES), limit))
    mod_dashlivesim.MAX_SESSION_LENGTH = 0
    env.CLOCK.now = None


def main():
    jobs = [("chunked", (i,)) for i in range(len(CHUNKED))] + [("served", (i, 8)) for i in range(8)]
    jobs += [("rules", (limit, i, 4)) for limit in (0, 3600) for i in range(4)]
    return core.run_check(PID, __name__, jobs, fresh=True,
                          bounds="%d paths (all resource kinds, errors, percent-encoding) x 3 instants x %d Range headers x %d Host headers over loopback HTTP; %d chunked "
                                 "resources x 7 arrival instants, with a disconnect at every wait; every path below the WSGI rules checker with and without a "
                                 "session limit, the iterator closed after 0, 1, 2 or all parts" % (len(PLAIN), len(RANGES), len(HOSTS), len(CHUNKED)),
                          assumptions=["HEAD bodies are not judged", "Date and Server headers are the HTTP library's"])
