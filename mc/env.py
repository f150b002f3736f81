"""Virtual clock, import of the code under test, and the WSGI driver."""
import io
import os
import shutil
import signal
import sys
import tempfile
import threading
import time as _time
import datetime as _dt

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True

# The host of the server is not in UTC: everything it writes must not depend on that (5.5 h east, with no DST).
os.environ["TZ"] = "XST-5:30"
_time.tzset()

_real_time, _real_sleep = _time.time, _time.sleep
_real_gmtime, _real_strftime, _real_localtime = _time.gmtime, _time.strftime, _time.localtime


class Clock:
    """Virtual wall clock. sleep() advances it; every sleep is recorded."""
    def __init__(self):
        self.now = None
        self.sleeps = []
        self.on_sleep = None

    def time(self):
        return _real_time() if self.now is None else self.now

    def sleep(self, d):
        if self.now is None:
            return _real_sleep(d)
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps.append(d)
        if self.on_sleep is not None:
            self.on_sleep()
        self.now += d


CLOCK = Clock()
_ready = False


def setup():
    """Patch the clock and put /repo first on the path. Idempotent."""
    global _ready
    if _ready:
        return
    _ready = True
    _time.time = CLOCK.time
    _time.sleep = CLOCK.sleep
    _time.time_ns = lambda: int(CLOCK.time() * 1e9)
    _time.gmtime = lambda s=None: _real_gmtime(CLOCK.time() if s is None else s)
    _time.localtime = lambda s=None: _real_localtime(CLOCK.time() if s is None else s)
    _time.strftime = lambda f, t=None: _real_strftime(f, _time.localtime() if t is None else t)

    class VDateTime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CLOCK.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CLOCK.time(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(CLOCK.time())
    _dt.datetime = VDateTime
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


_devnull = None


class Hang(BaseException):
    """The code under test uses more processor time than any legitimate answer needs."""


def _hang(signum, frame):
    raise Hang("no result after %d s of processor time" % CPU_LIMIT)


CPU_LIMIT = 40


class quiet:
    """Silence stdout/stderr of the code under test, and end it (with a Hang) when it does not come to an end."""

    def __init__(self, watch=True):
        self.watch = watch and threading.current_thread() is threading.main_thread()

    def __enter__(self):
        global _devnull
        if self.watch:
            signal.signal(signal.SIGPROF, _hang)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        if _devnull is None:
            _devnull = open(os.devnull, "w")
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = _devnull

    def __exit__(self, *a):
        if self.watch:
            signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr = self.o, self.e


class Resp:
    __slots__ = ("status", "reason", "headers", "hlist", "body", "chunks", "starts", "error")

    def __repr__(self):
        return "Resp(%s, %d bytes, %r)" % (self.status, len(self.body), self.body[:80])


class Server:
    """One content root + config dir, addressed through the WSGI entry point."""

    def __init__(self, assets, parent=None):
        self.dir = tempfile.mkdtemp(prefix="mc_", dir=parent)
        self.content = os.path.join(self.dir, "content")
        self.cfg = os.path.join(self.dir, "cfg")
        os.makedirs(self.content)
        os.makedirs(self.cfg)
        self.assets = {}
        for a in assets:
            a.write(self.content, self.cfg)
            self.assets[a.name] = a

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def environ(self, path, rng=None, https=False, query="", host="h.example.com", uri_query=True):
        # the stand-alone server passes the query in QUERY_STRING only
        env = {"HTTP_HOST": host, "REQUEST_URI": path + (("?" + query) if query and uri_query else ""), "VOD_CONF_DIR": self.cfg,
               "CONTENT_ROOT": self.content, "QUERY_STRING": query, "REQUEST_METHOD": "GET", "PATH_INFO": path,
               "wsgi.url_scheme": "https" if https else "http"}
        if rng is not None:
            env["HTTP_RANGE"] = rng
        return env

    def get(self, path, now, rng=None, https=False, query="", host="h.example.com", prefix="/livesim/", uri_query=True):
        setup()
        from dashlivesim.mod_wsgi import mod_dashlivesim
        return call(mod_dashlivesim.application, self.environ(prefix + path, rng, https, query, host, uri_query), now)


def call(app, environ, now):
    r = Resp()
    r.starts, r.chunks, r.error = [], [], None
    body = []

    def start_response(status, headers, exc_info=None):
        r.starts.append((status, list(headers), len(body)))

        def write(data):
            body.append(data)
        return write

    CLOCK.now = now
    CLOCK.sleeps = []
    try:
        with quiet():
            it = app(environ, start_response)
            for part in it:    # noqa
                body.append(part)
                r.chunks.append((CLOCK.now, part))
            if hasattr(it, "close"):
                it.close()
    except Hang as e:
        raise Hang("no answer to %s%s at %s: %s" % (environ.get("REQUEST_URI"), environ.get("HTTP_RANGE", ""), now, e)) from None
    except Exception as e:          # a WSGI server would answer 500 here
        r.error = e
    finally:
        CLOCK.now = None
    r.body = b"".join(b if isinstance(b, bytes) else b"" for b in body)
    if r.starts and r.error is None:
        st, r.hlist, _ = r.starts[0]
        r.status = int(st.split()[0])
        r.reason = st.split(" ", 1)[1] if " " in st else ""
        r.headers = {k.lower(): v for k, v in r.hlist}
    else:
        r.status, r.reason, r.hlist, r.headers = 500, "", [], {}
    return r
