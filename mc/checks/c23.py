"""C23: no request path makes the server open anything outside its content and configuration roots."""
import itertools
import os
import sys
import sysconfig
from .. import assets, env, core

PID = "C23"
NOW = 1500000003.5
MARK = b"s3cr3t-payload"


class Monitor:
    """Records every file-system access of the code under test through interpreter audit events."""
    EVENTS = ("open", "os.listdir", "os.scandir", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink",
              "os.utime", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.chdir", "subprocess.Popen", "shutil.rmtree", "shutil.move", "shutil.copyfile",
              "socket.connect", "socket.bind", "ctypes.dlopen", "tempfile.mkstemp", "tempfile.mkdtemp")

    def __init__(self):
        self.on = False
        self.log = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if self.on and event in self.EVENTS:
            self.log.append((event, args[0] if args else None, args[1] if event == "open" else None))


MON = None


def monitor():
    global MON
    if MON is None:
        MON = Monitor()
    return MON


class Site:
    """Content and configuration roots surrounded by decoys that look like servable content."""

    def __init__(self, top):
        self.top = os.path.realpath(top)
        self.content = os.path.join(self.top, "root", "content")
        self.cfg = os.path.join(self.top, "root", "cfg")
        self.cwd = os.path.join(self.top, "cwd")
        for d in (self.content, self.cfg, self.cwd):
            os.makedirs(d)
        good = assets.make_thumb("sq")
        good.write(self.content, self.cfg)
        n, dur = good.n, good.dur
        evil = lambda name: assets.Asset(name, dur, n, good.first, [
            assets.Rep("V1", "video", 90000, 1, assets.even_segs(MARK.decode(), n, dur * 90000, 2)),
            assets.Rep("A1", "audio", 48000, 2, assets.even_segs(MARK.decode(), n, dur * 48000, 2)),
            assets.Rep("thumbs", "image", 1, 0, [(k * dur, [assets.Smp(b"\xff\xd8" + MARK, dur, 0)]) for k in range(n)], ext=".jpg")])
        # <top>/root/{V1,A1,thumbs,...}, <top>/root/secret/..., <top>/root/content-x/sq/..., <top>/V1/..., <cwd>/sq/..., <content>/V1 is inside
        for parent, name in ((os.path.join(self.top, "root"), "secret"), (os.path.join(self.top, "root", "content-x"), "sq"), (self.cwd, "sq"), (self.top, "out"),
                             (self.cfg, "V1x")):
            os.makedirs(parent, exist_ok=True)
            evil(name).write(parent, None if parent == self.cfg else parent)
        for d in (self.top, os.path.join(self.top, "root"), self.cwd):
            for sub in ("V1", "A1", "thumbs", "Manifest.mpd"):
                os.symlink(os.path.join(self.top, "out", sub), os.path.join(d, sub))
        for d in (os.path.join(self.top, "root"), self.top, self.cwd):     # a configuration for content '..' and friends
            for nm in ("..cfg", "...cfg", "secret.cfg", "sq.cfg", ".cfg"):
                p = os.path.join(d, nm)
                if not os.path.exists(p):
                    with open(os.path.join(self.cfg, "sq.cfg")) as f, open(p, "w") as g:
                        g.write(f.read())
        for nm in ("...cfg", "..cfg", ".cfg", "....cfg"):                  # ... that would even be found inside the configuration root
            with open(os.path.join(self.cfg, "sq.cfg")) as f, open(os.path.join(self.cfg, nm), "w") as g:
                g.write(f.read())
        self.libs = tuple(os.path.realpath(p) for p in {sysconfig.get_paths()["stdlib"], os.path.join(env.REPO, "dashlivesim"), sysconfig.get_paths()["purelib"],
                                                          os.path.dirname(os.__file__)})
        self.cache = {}

    def allowed(self, event, path, mode):
        if event not in ("open", "os.listdir", "os.scandir"):
            return False
        if isinstance(path, int) or path is None:
            return isinstance(path, int)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = str(path)
        if path == os.devnull:
            return True
        if event == "open" and isinstance(mode, str) and any(c in mode for c in "wax+"):
            return False
        raw = path
        if raw not in self.cache:
            try:
                real = os.path.realpath(raw)
            except (ValueError, OSError):
                real = raw
            lex = os.path.normpath(os.path.join(os.getcwd(), raw))
            ok = any((real + "/").startswith(r + "/") and (lex + "/").startswith(r + "/") for r in (self.content, self.cfg))
            if not ok and real.endswith((".py", ".pyc", ".so")) and any(real.startswith(p + "/") for p in self.libs):
                ok = True
            self.cache[raw] = ok
        return self.cache[raw]


def request(acc, site, path, query=""):
    """path: REQUEST_URI path."""
    mon = monitor()
    from dashlivesim.mod_wsgi import mod_dashlivesim
    e = {"HTTP_HOST": "h", "REQUEST_URI": path, "QUERY_STRING": query, "VOD_CONF_DIR": site.cfg, "CONTENT_ROOT": site.content, "REQUEST_METHOD": "GET", "PATH_INFO": path,
         "wsgi.url_scheme": "http"}
    mon.log = []
    mon.on = True
    try:
        r = env.call(mod_dashlivesim.application, e, NOW)
    finally:
        mon.on = False
    acc.state()
    acc.trans("%s, %s" % (r.status, "files opened" if mon.log else "nothing opened"))
    for event, p, mode in mon.log:
        if not site.allowed(event, p, mode):
            acc.bad(path + "#open", "%s(%r, %r) outside the content and configuration roots" % (event, p, mode), path=path)
            break
    if MARK in r.body:
        acc.bad(path + "#body", "bytes of a file outside the content root were returned", path=path)
    return r


DOTS = ["..", ".", "", "sq", "V1", "root", "secret", "content-x", "%2e%2e", "...", "V1__A1", "start_1", "~", "..\\..", "V1x", "cfg"]
FINAL = ["750000000.m4s", "init.mp4", "Manifest.mpd", "Manifest.mpd+p0.period", "750000000.jpg", "..+p0.period", "..", "sq.cfg", "t67500000000000.m4s"]
PRE = ["", "sidx_1/", "segtimeline_1/", "periods_60/xlink_60/", "chunkdur_1/"]


def site_job(fn):
    def run(acc, *args):
        import tempfile
        import shutil
        env.setup()
        from dashlivesim.mod_wsgi import mod_dashlivesim        # noqa: imported before monitoring
        old = os.getcwd()
        top = tempfile.mkdtemp(prefix="mc_c23_")
        try:
            site = Site(top)
            os.chdir(site.cwd)
            fn(acc, site, *args)
        finally:
            os.chdir(old)
            shutil.rmtree(top, ignore_errors=True)
    return run


@site_job
def shard_free(acc, site, first, depth):
    """All paths of up to `depth` directory components and a final component."""
    for n in range(depth):
        for mid in itertools.product(DOTS, repeat=n):
            for fin in FINAL:
                request(acc, site, "/livesim/" + "/".join((first,) + mid + (fin,)))
    acc.trace()
    acc.sample("all paths starting with %r" % first)


@site_job
def shard_content(acc, site, pi, depth):
    """Hostile components between a good content name and a good representation."""
    for n in range(depth + 1):
        for mid in itertools.product(DOTS, repeat=n):
            for rep in ("V1", "A1", "thumbs", "V1__A1", ".."):
                for fin in FINAL[:6]:
                    if fin.endswith(".jpg") != (rep == "thumbs") and n > 1:
                        continue
                    request(acc, site, "/livesim/" + PRE[pi] + "/".join(("sq",) + mid + (rep, fin)))
    acc.trace()
    acc.sample("%ssq/<%d hostile components>/rep/file" % (PRE[pi], depth))


@site_job
def shard_special(acc, site):
    ups = ["/".join([".."] * k) for k in range(1, 12)]
    tails = ["etc/passwd", "etc/V1/750000000.m4s", "root/V1/init.mp4", "root/secret/V1/750000000.m4s", "secret/V1/750000000.m4s", "V1/750000000.m4s", "Manifest.mpd", "secret/Manifest.mpd",
             "content-x/sq/V1/init.mp4"]
    heads = ["", "sq/", "sq/V1/", "sq/./", "start_0/sq/", "sq/V1/../V1/", "nope/", "sq//", "/sq/"]
    abs_ = [site.top + "/root/secret/V1/init.mp4", site.top + "/V1/750000000.m4s", "/etc/passwd", "/etc/hostname.m4s", site.content + "/../secret/V1/init.mp4"]
    enc = lambda s: [s, s.replace("..", "%2e%2e"), s.replace("/", "%2f"), s.replace("..", "..;"), s.replace("..", ". ."), s.replace("/", "\\"), s.replace("..", "%252e%252e"),
                     s.replace("..", "..\x00"), s.replace("..", "\uff0e\uff0e"), s.replace("..", "..?"), s.replace("..", "..#"), s + "\x00.m4s", s.upper()]
    for h in heads:
        for u in ups:
            for t in tails:
                for v in enc(u + "/" + t):
                    request(acc, site, "/livesim/" + h + v)
        for a in abs_:
            for v in enc(a):
                request(acc, site, "/livesim/" + h + v)
                request(acc, site, "/livesim/" + h + "/" + v)
    for key in ("start", "baseurl", "utc", "sid", "sts", "snr", "ato", "insertad", "xlink", "periods"):
        for v in ("..", "../..", "../../secret", "/etc/passwd", "..%2f..", "u10_d10/../../secret"):
            for t in ("sq/V1/750000000.m4s", "sq/Manifest.mpd", "secret/V1/init.mp4"):
                request(acc, site, "/livesim/%s_%s/%s" % (key, v, t))
    for q in ("file=../../secret", "path=/etc/passwd", "..", "/etc/passwd"):
        request(acc, site, "/livesim/sq/V1/750000000.m4s?" + q, q)
        request(acc, site, "/livesim/sq/Manifest.mpd?" + q, q)
    acc.trace()
    acc.sample("climbing to / with 11 levels, 13 encodings, option values and queries")


@site_job
def shard_good(acc, site):
    """The monitor sees the files of ordinary requests (so silence means something)."""
    want = {"sq/V1/750000000.m4s": "V1/", "sq/V1/init.mp4": "V1/init.mp4", "sq/Manifest.mpd": "Manifest.mpd", "sq/thumbs/750000000.jpg": "thumbs/"}
    for p, w in want.items():
        r = request(acc, site, "/livesim/" + p)
        opened = [str(x[1]) for x in monitor().log]
        if r.status != 200:
            acc.bad(p, "ordinary request answered %s %r" % (r.status, r.body[:80]), path=p)
        elif not any(w in x for x in opened):
            raise RuntimeError("monitor did not see %s: %s" % (w, opened))
    acc.trace()


def main():
    deep = core.thorough()
    jobs = [("shard_free", (d, 4 if deep else 3)) for d in DOTS]
    jobs += [("shard_content", (i, 3 if deep else 2)) for i in range(len(PRE))]
    jobs += [("shard_content", (0, 4 if deep else 3)), ("shard_special", ()), ("shard_good", ())]
    return core.run_check(PID, __name__, jobs,
                          bounds="all paths of up to %d directory components over 16 hostile components x 9 file names; up to %d hostile components between content and representation x 5 option "
                                 "contexts; 13 encodings of paths climbing up to 11 levels" % (4 if deep else 3, 4 if deep else 3),
                          assumptions=["file access happens through the Python interpreter (audit events)"])
