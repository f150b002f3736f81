"""C21: stateless model checking of the real server: schedules of concurrent requests and request histories."""
import itertools
import multiprocessing
import os
import pickle
import re
import sys
import threading
import types
from .. import assets, env, core, iso

PID = "C21"
NOW = 1500000003.5
FAR = 1500003605.25
DIRECT_API = True


def defaults(name, ts, per, flags):
    """Content whose samples take their durations and flags from the trex of the track."""
    segs = [(k * 2 * ts, [iso.Smp(("%s.%d.%d" % (name, k, i)).encode(), 2 * ts // per, flags) for i in range(per)]) for k in range(4)]
    kw = dict(dur_in="trex", flags_in="trex"), dict(trex_dur=2 * ts // per, trex_flags=flags)
    return assets.Asset(name, 2, 4, 1, [assets.Rep("A1", "audio", ts, 2, segs, *kw), assets.Rep("V1", "video", ts, 1, segs, *kw)])


def world():
    """Two sites with equal names but different content, so that anything kept under too coarse a key shows."""
    a = [assets.make_sq(), assets.make_stp(), assets.make_thumb("six"), assets.make_odd(), defaults("tra", 12800, 4, 0x02000000), defaults("trb", 44100, 8, 0x01010000)]
    other = assets.make_simple("sq", 4, 3, first=5, vts=12800, ats=44100)
    return [env.Server(a), env.Server([other, assets.make_nine("six"), defaults("tra", 90000, 2, 0)])]


# (site, URL path below the host, headers, instant)
BASIC = [
    (0, "/livesim/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/start_1499999400/dur_1200/snr_3/tsbd_20/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/segtimeline_1/start_1499999401/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/segtimelinenr_1/odd/Manifest.mpd", {}, NOW),
    (0, "/livesim/periods_60/xlink_30/continuous_1/mpdcallback_30/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/baseurl_u40_d20/baseurl_d40_u20/utc_direct-head/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/chunkdur_1/ato_1/scte35_2/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/startrel_-60/stoprel_60/timeoffset_0/six/Manifest.mpd", {"wsgi.url_scheme": "https"}, NOW),
    (1, "/livesim/utc_ntp/spd_10/sq/Manifest.mpd", {"HTTP_HOST": "other.example.org"}, NOW),
    (0, "/livesim/sq/V1/750000000.m4s", {}, NOW),
    (1, "/livesim/sq/V1/374999999.m4s", {}, NOW),
    (0, "/livesim/snr_9/scte35_3/sidx_1/sq/V2/749999990.m4s", {}, NOW),
    (0, "/livesim/start_1499999400/dur_1200/timeoffset_0/odd/aud/499999999.m4s", {}, NOW),
    (0, "/livesim/stp/S1/750000000.m4s", {}, NOW),
    (0, "/livesim/start_1499999400/timeoffset_0/stp/S1/749999996.m4s", {}, NOW),
    (0, "/livesim/start_1499999400/snr_-1/timeoffset_1499999400/chunkdur_1/stp/V1__S1/301.m4s", {}, NOW),
    (0, "/livesim/sq/V1__A1/750000000.m4s", {}, NOW),
    (0, "/livesim/chunkdur_0.5/ato_1/tra/V1/750000000.m4s", {}, NOW),
    (0, "/livesim/chunkdur_0.5/ato_1/trb/V1/750000000.m4s", {}, NOW),
    (1, "/livesim/sidx_1/tra/V1/750000000.m4s", {}, NOW),
    (0, "/livesim/sidx_1/tra/V1/750000000.m4s", {}, NOW),
    (0, "/livesim/tra/A1/init.mp4", {}, NOW),
    (0, "/livesim/baseurl_u3_d30/sq/V1/750000000.m4s", {}, NOW),
    (0, "/livesim/sq/A1/init.mp4", {}, NOW),
    (0, "/livesim/sq/V1__A1/init.mp4", {"HTTP_RANGE": "bytes=10-99"}, NOW),
    (1, "/livesim/six/A1/init.mp4", {}, NOW),
    (0, "/livesim/six/thumbs/750000000.jpg", {}, NOW),
    (0, "/livesim/sq/V1/750000005.m4s", {}, NOW),
    (0, "/livesim/nope/V1/1.m4s", {"HTTP_RANGE": "bytes=0-1"}, NOW),
    (0, "/livesim/periods_60/xlink_60/sq/Manifest.mpd+p25000000.period", {}, NOW),
]
LIMITED = [
    (0, "/livesim/sq/Manifest.mpd", {"QUERY_STRING": "a=b"}, NOW),
    (0, "/livesim/sts_1500000000/sid_a/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/sts_1500000000/sid_a/sq/V1/750000000.m4s", {}, NOW),
    (0, "/livesim/sts_1400000000/sid_b/sq/Manifest.mpd", {}, NOW),
    (0, "/livesim/sts_1600000000/sid_b/sq/V1/750000000.m4s", {}, NOW),
    (0, "/livesim/sq/V1/750000000.m4s", {}, NOW),
    (1, "/livesim/snr_4/sq/Manifest.mpd", {"HTTP_HOST": "other"}, NOW),
]
# further instants of the same URLs, for the histories
LATER = [(s, p, h, FAR) for s, p, h, _ in (BASIC[0], BASIC[1], BASIC[2], BASIC[4], BASIC[5], BASIC[7], BASIC[9], BASIC[16])] + [
    (0, "/livesim/start_1499999400/dur_1200/sq/V1/599.m4s", {}, NOW + 600), (0, "/livesim/snr_-1/sq/Manifest.mpd", {}, NOW)]


class Ctx:
    def __init__(self, limit):
        env.setup()
        import importlib
        import pkgutil
        import dashlivesim.dashlib
        from dashlivesim.mod_wsgi import mod_dashlivesim as m
        for x in pkgutil.iter_modules(dashlivesim.dashlib.__path__, "dashlivesim.dashlib."):
            importlib.import_module(x.name)
        self.m = m
        m.MAX_SESSION_LENGTH = 600 if limit else 0
        self.reqs = (LIMITED if limit else BASIC)
        self.sites = world()

    def close(self):
        for s in self.sites:
            s.close()
        self.m.MAX_SESSION_LENGTH = 0


_devnull = open(os.devnull, "w")


def request(ctx, req):
    """One request, in the calling thread. The virtual clock is set by the caller."""
    site, path, extra, _ = req
    s = ctx.sites[site]
    e = {"HTTP_HOST": "h.example.com", "REQUEST_URI": path, "VOD_CONF_DIR": s.cfg, "CONTENT_ROOT": s.content, "QUERY_STRING": "", "REQUEST_METHOD": "GET", "PATH_INFO": path,
         "wsgi.url_scheme": "http"}
    e.update(extra)
    starts, body = [], []

    def start_response(status, headers, exc_info=None):
        starts.append((status, sorted(headers)))
    try:
        with env.quiet(sys.gettrace() is None):        # under a Tracer, that counts lines
            for part in ctx.m.application(e, start_response):
                body.append(part)
        err = None
    except env.Hang as x:
        err = repr(x)
    except Exception as x:
        err = repr(x)
    return norm(starts), tuple(body), err


def norm(starts):
    """Session ids are random."""
    out = []
    for st, hl in starts:
        out.append((st, tuple((k, re.sub(r"sid_[0-9a-f]{8}/", "sid_*/", v)) for k, v in hl)))
    return tuple(out)


class hushed:
    def __enter__(self):
        self.o = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = _devnull

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o
        env.CLOCK.now = None


def forked(fn):
    """Run fn in a forked copy of this process (fresh server state) and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps(fn())
        except BaseException as x:
            data = pickle.dumps(("FAILED", repr(x)))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data)
    if isinstance(out, tuple) and len(out) == 2 and out[0] == "FAILED":
        raise RuntimeError(out[1])
    return out


def alone(ctx, req):
    """Response of a fresh server to this request only."""
    def f():
        with hushed():
            env.CLOCK.now = req[3]
            return request(ctx, req)
    return forked(f)


# ------------------------------------------------------------------ shared state
def roots():
    import dashlivesim
    return sorted(n for n in sys.modules if n == "dashlivesim" or n.startswith("dashlivesim.") and ".tests" not in n)


def fingerprint():
    """Everything the requests could share: contents of module globals, class attributes, argument defaults, closures."""
    out = []
    seen = set()

    def walk(x, depth):
        if x is None or isinstance(x, (int, float, str, bytes, bool)):
            out.append(x)
            return
        if isinstance(x, (tuple, list, dict, set, frozenset)) and depth > 0:
            if id(x) in seen:
                return
            seen.add(id(x))
            out.append(len(x))
            if isinstance(x, dict):
                for k, v in list(x.items()):
                    walk(k, depth - 1)
                    walk(v, depth - 1)
            else:
                for v in list(x):
                    walk(v, depth - 1)
            return
        out.append(id(x))
        if id(x) in seen or depth <= 0:
            return
        seen.add(id(x))
        if isinstance(x, types.FunctionType):
            for y in (x.__defaults__, x.__kwdefaults__, x.__dict__ or None):
                if y:
                    walk(y, depth - 1)
            for c in x.__closure__ or ():
                try:
                    walk(c.cell_contents, depth - 1)
                except ValueError:
                    pass
        elif isinstance(x, (staticmethod, classmethod)):
            walk(x.__func__, depth)
        elif isinstance(x, type):
            if x.__module__.startswith("dashlivesim"):
                for k, v in list(vars(x).items()):
                    if k not in ("__dict__", "__weakref__", "__doc__"):
                        walk(v, depth - 1)
        elif type(x).__module__.startswith("dashlivesim"):
            walk(getattr(x, "__dict__", None), depth - 1)
        elif type(x).__name__ in ("deque", "OrderedDict", "defaultdict", "Counter"):
            walk(list(x.items()) if hasattr(x, "items") else list(x), depth - 1)
        elif hasattr(x, "cache_info"):
            out.append(x.cache_info())

    for n in roots():
        mod = sys.modules.get(n)
        if mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            walk(v, 6)
    import xml.etree.ElementTree as ET
    out.append(len(ET._namespace_map))
    out.append(os.getcwd())
    return hash(tuple(out))


# ------------------------------------------------------------------ controlled scheduler
class Tracer:
    """Calls `at(i, key)` before the i-th line of dashlivesim code that this thread executes."""

    def __init__(self, at):
        self.at = at
        self.i = -1
        self.prefix = os.path.join(env.REPO, "dashlivesim")

    def line(self, frame, event, arg):
        if event == "line":
            self.i += 1
            if self.i > 3000000:            # far beyond any request of this catalogue
                raise RuntimeError("the request never comes to an end")
            self.at(self.i, (frame.f_code.co_filename, frame.f_lineno))
        return self.line

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.prefix) else None

    def run(self, fn):
        sys.settrace(self.call)
        try:
            return fn()
        finally:
            sys.settrace(None)


def points(ctx, req, every, shared=True):
    """Scheduling points of a request run alone: line indices, and those where shared state has just been written."""
    def trace():
        seq = []
        Tracer(lambda i, key: seq.append(key)).run(lambda: request(ctx, req))
        return seq
    keys, seqs = set(), []
    if shared:                                  # as the first request of a server, and after all others
        for first in (False, True):
            keys |= set(forked(lambda: (first and [request(ctx, r) for r in ctx.reqs if r is not req], write_lines(ctx, req))[1]))
        seqs.append(forked(trace))
    seqs.append(trace())
    pts, writes = set(), set()
    for seq in seqs:
        occ = {}
        for i, k in enumerate(seq):
            occ.setdefault(i if every else k, i)
        pts |= set(occ.values())
        writes |= {i for i in occ.values() if seq[i] in keys}
        if END in keys:
            writes.add(max(occ.values()))
    return max(map(len, seqs)), sorted(pts), sorted(writes)


END = ("", 0)


def around(pts, writes, cap):
    """The scheduling points closest to writes to shared state."""
    dist = {}
    for w in writes:
        c = pts.index(w)
        for x in range(max(0, c - 3), min(len(pts), c + 3)):
            dist[x] = min(dist.get(x, 9), abs(2 * (x - c) - 1))
    return sorted(pts[x] for x in sorted(dist, key=lambda x: (dist[x], x))[:cap])


def write_lines(ctx, req):
    """Source lines before which shared state is seen to have changed while req runs in the present state of the server."""
    env.CLOCK.now = req[3]
    lines = []
    state = [fingerprint()]
    seen = {}

    def at(i, key):
        if seen.setdefault(key, 0) < 2:
            seen[key] += 1
            f = fingerprint()
            if f != state[0]:
                lines.append(key)
                state[0] = f
    Tracer(at).run(lambda: request(ctx, req))
    if fingerprint() != state[0]:
        lines.append(END)
    return lines


def kind(req):
    return req[1].rsplit(".", 1)[-1], "__" in req[1], "/stp/" in req[1]


def in_thread(fn):
    box = []
    t = threading.Thread(target=lambda: box.append(fn()))
    t.start()
    t.join()
    return box[0]


def preempt_at(ctx, req, plan):
    """Run req; before line plan[0][0] another thread runs the rest of the plan (nested preemption), then req continues.
    Returns the responses in plan order, outermost first."""
    if not plan:
        return [request(ctx, req)]
    (k, nxt), rest = plan[0], plan[1:]
    inner = []

    def at(i, key):
        if i == k and not inner:
            sys.settrace(None)
            inner.extend(in_thread(lambda: preempt_at(ctx, nxt, rest)))
            sys.settrace(tr.call)
    tr = Tracer(at)
    out = tr.run(lambda: request(ctx, req))
    if not inner:                               # over before that line
        inner.extend(in_thread(lambda: preempt_at(ctx, nxt, rest)))
    return [out] + inner


class Stepper(threading.Thread):
    """A request that runs up to a given line when told to."""

    def __init__(self, ctx, req):
        super().__init__(daemon=True)
        self.ctx, self.req = ctx, req
        self.go, self.stopped = threading.Semaphore(0), threading.Semaphore(0)
        self.limit = None
        self.done = False
        self.out = None

    def run(self):
        self.go.acquire()

        def at(i, key):
            if self.limit is not None and i >= self.limit:
                self.limit = None
                self.stopped.release()
                self.go.acquire()
        self.out = Tracer(at).run(lambda: request(self.ctx, self.req))
        self.done = True
        self.stopped.release()

    def advance(self, limit):
        """Run until line `limit` (None: to the end)."""
        if self.done:
            return
        self.limit = limit
        self.go.release()
        self.stopped.acquire()


def interleave(ctx, a, b, k, j):
    """a up to line k, b up to line j, a to the end, b to the end (two preemptions)."""
    A, B = Stepper(ctx, a), Stepper(ctx, b)
    A.start(), B.start()
    A.advance(k)
    B.advance(j)
    A.advance(None)
    B.advance(None)
    A.join()
    B.join()
    return [A.out, B.out]


def show(req):
    return "%s%s" % (req[1], " (site %d)" % req[0] if req[0] else "")


def differ(got, want):
    (gs, gb, ge), (ws, wb, we) = got, want
    if ge != we:
        return "exception %s instead of %s" % (ge, we)
    if gs != ws:
        if len(gs) != len(ws):
            return "%d response starts" % len(gs)
        d = [(x, y) for x, y in zip(gs[0][1], ws[0][1]) if x != y]
        return "%s instead of %s, headers %s" % (gs[0][0], ws[0][0], d or (gs[0][1], ws[0][1]))
    if gb != wb:
        a, b = b"".join(gb), b"".join(wb)
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return "body differs at byte %d (of %d and %d): %r instead of %r" % (i, len(a), len(b), a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40])
    return None


def shard_pairs(acc, limit, i, every):
    """Request i is preempted at every scheduling point by every other request (one preemption), and deeper where shared state is written."""
    ctx = Ctx(limit)
    try:
        want = [alone(ctx, r) for r in ctx.reqs]
        with hushed():
            env.CLOCK.now = NOW
            a = ctx.reqs[i]
            total, pts, writes = POINTS[limit, i]
            # One preemption in a server that has seen no request before (first use of whatever is kept)
            for j, b in enumerate(ctx.reqs) if writes else ():
                for k in around(pts, writes, 40 if every and not limit else 16):
                    acc.state()
                    env.CLOCK.now = NOW
                    got = forked(lambda: preempt_at(ctx, a, [(k, b)]))
                    for who, g, w in (("preempted", got[0], want[i]), ("preempting", got[1], want[j])):
                        acc.trans("fresh server")
                        d = differ(g, w)
                        if d:
                            acc.bad("fresh %s | %s" % (show(a), show(b)), "in a fresh server the %s request is affected: %s (switch before line event %d)" % (who, d, k), first=a[1],
                                    second=b[1], at=k)
            request(ctx, a)
            for j, b in enumerate(ctx.reqs):
                if not (every or writes or (i + j) % 3 == 0 or kind(a) == kind(b)):
                    continue
                if acc.nviol > 200:
                    return
                for k in pts:
                    acc.state()
                    got = preempt_at(ctx, a, [(k, b)])
                    env.CLOCK.now = NOW
                    for who, g, w in (("preempted", got[0], want[i]), ("preempting", got[1], want[j])):
                        d = differ(g, w)
                        acc.trans()
                        if d:
                            acc.bad("%s | %s" % (show(a), show(b)), "the %s request is affected: %s (switch before line event %d of %d)" % (who, d, k, total), first=a[1], second=b[1],
                                    at=k)
                acc.trace()
            acc.trans("line events of one request", total)
            acc.trans("scheduling points", len(pts))
            acc.trans("writes to shared state", len(writes))
            # Two and three preemptions around writes to shared state (elsewhere transitions of different requests commute)
            if writes:
                near = around(pts, writes, 60 if every else 24)
                for j, b in enumerate(ctx.reqs):
                    _, bp, bw = POINTS[limit, j]
                    bnear = around(bp, bw, 40 if every else 16)
                    if acc.nviol > 200:
                        return
                    for k in near:
                        for m in bnear:
                            acc.state()
                            env.CLOCK.now = NOW
                            for g, w in zip(interleave(ctx, a, b, k, m), (want[i], want[j])):
                                acc.trans()
                                d = differ(g, w)
                                if d:
                                    acc.bad("2 %s | %s" % (show(a), show(b)), "interleaved requests affect each other: %s" % d, first=a[1], second=b[1], at=(k, m))
        acc.sample("%s: %d line events, %d scheduling points x %d concurrent requests, %d writes to shared state" % (show(a), total, len(pts), len(ctx.reqs), len(writes)))
    finally:
        ctx.close()


def shard_two(acc, limit, i, step):
    """Two preemptions on a grid of scheduling points, independent of the shared-state monitor."""
    ctx = Ctx(limit)
    try:
        want = [alone(ctx, r) for r in ctx.reqs]
        with hushed():
            env.CLOCK.now = NOW
            a = ctx.reqs[i]
            request(ctx, a)
            _, pa, _ = points(ctx, a, False, False)
            for j, b in enumerate(ctx.reqs):
                request(ctx, b)
                _, pb, _ = points(ctx, b, False, False)
                for k in pa[::max(1, len(pa) // step)]:
                    for m in pb[::max(1, len(pb) // step)]:
                        acc.state()
                        env.CLOCK.now = NOW
                        for g, w in zip(interleave(ctx, a, b, k, m), (want[i], want[j])):
                            acc.trans()
                            d = differ(g, w)
                            if d:
                                acc.bad("2g %s | %s" % (show(a), show(b)), "interleaved requests affect each other: %s" % d, first=a[1], second=b[1], at=(k, m))
                acc.trace()
    finally:
        ctx.close()


def debruijn(k, n):
    """Cyclic sequence over range(k) containing every word of length n."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def shard_history(acc, limit, part, parts, depth):
    """All request histories: exact depth 2 from a fresh server each, and every window of `depth` requests in one long life."""
    ctx = Ctx(limit)
    try:
        reqs = ctx.reqs if limit else BASIC + LATER
        want = [alone(ctx, r) for r in reqs]

        def run(seq):
            out = []
            with hushed():
                for x in seq:
                    env.CLOCK.now = reqs[x][3]
                    d = differ(request(ctx, reqs[x]), want[x])
                    if d:
                        out.append((x, d))
            return out
        for n, (x, y) in enumerate(itertools.product(range(len(reqs)), repeat=2)):
            if n % parts != part:
                continue
            acc.state(2)
            acc.trans("fresh history", 2)
            for z, d in forked(lambda: run((x, y))):
                acc.bad("%s then %s" % (show(reqs[x]), show(reqs[y])), "response to %s: %s" % (show(reqs[z]), d), first=reqs[x][1], second=reqs[y][1])
        sub = list(range(part % 3, len(reqs), 3)) if depth > 2 and not limit else list(range(len(reqs)))
        seq = [sub[q] for q in debruijn(len(sub), depth)]
        if part % 2:
            seq.reverse()
        lo = 0
        with hushed():
            for pos, x in enumerate(seq):
                env.CLOCK.now = reqs[x][3]
                g = request(ctx, reqs[x])
                acc.state()
                acc.trans("long history")
                d = differ(g, want[x])
                if d:
                    prev = [show(reqs[q]) for q in seq[max(lo, pos - 3):pos]]
                    acc.bad("history .. %s" % show(reqs[x]), "response to %s after %s: %s" % (show(reqs[x]), prev, d), history=prev, path=reqs[x][1])
        acc.trace()
        acc.sample("histories over %d requests (depth 2 from a fresh server), and all windows of %d of %d requests" % (len(reqs), depth, len(sub)))
    finally:
        ctx.close()


POINTS = {}


def monitor(job):
    """Scheduling points of one request and where it writes to shared state (in a process of its own)."""
    limit, i, every = job
    ctx = Ctx(limit)
    try:
        with hushed():
            env.CLOCK.now = ctx.reqs[i][3]
            return (limit, i), points(ctx, ctx.reqs[i], every)
    finally:
        ctx.close()


def main():
    deep = core.thorough()
    env.setup()
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for key, val in pool.imap_unordered(monitor, [(False, i, deep) for i in range(len(BASIC))] + [(True, i, True) for i in range(len(LIMITED))], chunksize=1):
            POINTS[key] = val
    jobs = [("shard_pairs", (False, i, deep)) for i in range(len(BASIC))] + [("shard_pairs", (True, i, True)) for i in range(len(LIMITED))]
    jobs += [("shard_history", (False, i, 6, 4 if deep else 3)) for i in range(6)] + [("shard_history", (True, i, 2, 5 if deep else 4)) for i in range(2)]
    jobs += [("shard_two", (False, i, 16 if deep else 4)) for i in range(len(BASIC))] + [("shard_two", (True, i, 40 if deep else 12)) for i in range(len(LIMITED))]
    return core.run_check(PID, __name__, jobs, fresh=True,
                          bounds="%d + %d requests: %s ordered pairs, one preemption at %s source line executed, two preemptions at all pairs of points around writes to shared state and on a "
                                 "grid; all histories of depth 2 from a fresh server, all windows of %d requests in a long-lived one" % (
                                     len(BASIC), len(LIMITED), "all" if deep else "a third of the (all, when shared state is written)", "every" if deep else "the first execution of every", 4 if deep else 3),
                          assumptions=["scheduling points are source lines of dashlivesim (no switch inside a line)", "library calls are atomic",
                                       "writes to shared state are seen by comparing module globals, class attributes, argument defaults and closures at each scheduling point"])
