"""C22: session limits (redirect, end of session, refusals) for every URL shape and instant."""
import re
from .. import assets, env, core

PID = "C22"
BASE = 1500000000


def catalogue():
    return assets.make_thumb("sq")


class Limit:
    """The module's configuration variable, set for the duration of a shard."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        env.setup()
        from dashlivesim.mod_wsgi import mod_dashlivesim as m
        self.m, self.old = m, m.MAX_SESSION_LENGTH
        m.MAX_SESSION_LENGTH = self.n

    def __exit__(self, *a):
        self.m.MAX_SESSION_LENGTH = self.old


OPTS = ["", "start_1499999400/", "snr_4/tsbd_20/", "segtimeline_1/", "periods_60/", "periods_60/xlink_60/", "ato_1/chunkdur_1/", "startrel_-60/stoprel_60/", "sidx_1/scte35_2/", "baseurl_u50_d10/",
        "modulo_10/", "utc_head-ntp/", "bogus_7/"]
PREFIXES = ["livesim", "dash", "livesim-chunked"]
QUERIES = ["", "a=b", "a=b&c=d%20e", "sts_5", "x=/sts_1/y", "=", "a=%C3%A9"]


def media(opts, now):
    n = int(now) // 2 - 1
    if "start_" in opts:
        n = (int(now) - 1499999400) // 2 - 1
    if "snr_4" in opts:
        n += 4
    return n


def strip(body, sts, sid):
    """MPD without session parameters."""
    t = body.decode("utf-8")
    return t.replace("/sts_%s" % sts, "").replace("/sid_%s" % sid, "")


def shard_redirect(acc, oi, L):
    """MPD without session start: redirect to the same URL with session start and id; following it gives the plain MPD."""
    opts = OPTS[oi]
    ids = {}
    with env.Server([catalogue()]) as srv:
        for prefix in PREFIXES:
            for q, uq in [(q, uq) for q in QUERIES for uq in ((True, False) if q else (True,))]:
                for https in (False, True):
                    for host in ("h.example.com", "h:8059", "[::1]:80"):
                        for now in (float(BASE), BASE + 0.999, BASE + 1801.5):
                            path = "/%s/%ssq/Manifest.mpd" % (prefix, opts)
                            key = "%s?%s%s@%s host=%s https=%s L=%d" % (path, q, "" if uq else " (QUERY_STRING only)", now, host, https, L)
                            with Limit(L):
                                r = srv.get(path, now, https=https, query=q, host=host, prefix="", uri_query=uq)
                            acc.state()
                            acc.trans("redirect")
                            if r.status != 302 or r.error:
                                acc.bad(key, "answered %s %r" % (r.status, r.error or r.body[:60]), path=path, now=now)
                                continue
                            loc = r.headers.get("location", "")
                            head = "%s://%s/%s/" % ("https" if https else "http", host, prefix)
                            m = re.match(re.escape(head) + r"sts_(\d+)/sid_([0-9A-Za-z-]+)/" + re.escape(opts) + r"sq/Manifest\.mpd" + re.escape("?" + q if q else "") + "$", loc)
                            if not m:
                                acc.bad(key, "Location %r" % loc, path=path, now=now)
                                continue
                            sts, sid = m.groups()
                            if int(sts) != int(now):
                                acc.bad(key, "session start %s at %s" % (sts, now), path=path, now=now)
                            ids[sid] = ids.get(sid, 0) + 1
                            target = loc[len(head) - len(prefix) - 2:].split("?")[0]
                            for dt in (0, 0.5, L - 1):
                                with Limit(L):
                                    f = srv.get(target, now + dt, https=https, query=q, host=host, prefix="", uri_query=uq)
                                p = srv.get(path, now + dt, https=https, query=q, host=host, prefix="", uri_query=uq)
                                acc.trans("followed")
                                if f.status != p.status or f.error or p.error:
                                    acc.bad(key + "+%s" % dt, "redirected URL answered %s instead of %s" % (f.status, p.status), path=target, now=now + dt)
                                elif f.status == 200 and strip(f.body, sts, sid) != p.body.decode("utf-8"):
                                    acc.bad(key + "+%s" % dt, "redirected MPD differs in more than the session parameters", path=target, now=now + dt)
                                elif f.status == 200 and "<BaseURL" in f.body.decode() and ("/sts_%s/" % sts not in f.body.decode() or "/sid_%s/" % sid not in f.body.decode()):
                                    acc.bad(key + "+%s" % dt, "session parameters are lost in the URLs of the MPD", path=target, now=now + dt)
        total = sum(ids.values())
        if total > 3 and len(ids) < total - 1:     # one accidental repetition of a 32-bit id would be conceivable
            acc.bad("ids %s L=%d" % (opts, L), "%d different session ids in %d redirects" % (len(ids), total))
        acc.trace()
        acc.sample("%s: redirect and its target for 3 prefixes x 7 queries x 3 hosts x 3 instants, L=%d" % (opts or "(no options)", L))


RES = ["Manifest.mpd", "V1/init.mp4", "V1/%d.m4s", "thumbs/%d.jpg", "V1__A1/%d.m4s", "Manifest.mpd+p0.period", "nope.xyz"]
SESS = ["sts_%s/sid_abc/", "sid_abc/sts_%s/", "sts_%s/"]


def shard_window(acc, oi, L):
    """Life cycle of a session: every resource at every boundary instant."""
    opts = OPTS[oi]
    now = float(BASE + 7)
    with env.Server([catalogue()]) as srv:
        for form in SESS:
            for place in (0, 1):                   # session parameters before or after the other options
                for res in RES:
                    for frac in (0.0, 0.25, 0.75):
                        t = now + frac
                        tail = "sq/" + (res % media(opts, t) if "%d" in res else res)
                        for off in (0, 1, 2, L // 2, L - 1, L, L + 1, 2 * L, 10 ** 6, -1, -4, -5, -6, -100):
                            sts = int(t) - off
                            path = (form % sts + opts if place == 0 else opts + form % sts) + tail
                            with Limit(L):
                                r = srv.get(path, t)
                            p = srv.get(opts + tail, t)
                            acc.state()
                            key = "%s@%s L=%d" % (path, t, L)
                            if t > sts + L:
                                acc.trans("ended")
                                if r.status != 410 or r.error or b"<" in r.body:
                                    acc.bad(key, "%s s after the session start: answered %s, should be 410" % (t - sts, r.status), path=path, now=t)
                            elif sts > t + 5:
                                acc.trans("future")
                                if r.status != 404:
                                    acc.bad(key, "session starts in the future: answered %s" % r.status, path=path, now=t)
                            elif sts > t:
                                acc.trans("slightly ahead")           # margin for clock differences; either is fine, but no redirect or gone
                                if r.status not in (p.status, 404):
                                    acc.bad(key, "answered %s" % r.status, path=path, now=t)
                            else:
                                acc.trans("inside")
                                compare(acc, key, r, p, sts, path, t)
                    # no session start at all
                    t = now
                    tail = "sq/" + (res % media(opts, t) if "%d" in res else res)
                    if not res.endswith(".mpd"):
                        for path in (opts + tail, "sid_x/" + opts + tail, "sts_/" + opts + tail, "sts_abc/" + opts + tail, "sts/" + opts + tail, "sts_1.5/" + opts + tail):
                            with Limit(L):
                                r = srv.get(path, t)
                            acc.state()
                            acc.trans("no session start")
                            if r.status != 404 or not r.body:
                                acc.bad("%s@%s L=%d" % (path, t, L), "no session start, but answered %s" % r.status, path=path, now=t)
        acc.trace()
        acc.sample("%s: life cycle of sessions, L=%d" % (opts or "(no options)", L))


def compare(acc, key, r, p, sts, path, t):
    if r.status != p.status or r.error or p.error:
        acc.bad(key, "inside the session: answered %s, without limit %s" % (r.status, p.status), path=path, now=t)
        return
    if r.status != 200:
        return
    a, b = r.body, p.body
    if path.endswith((".mpd", ".period")):
        a, b = strip(a, sts, "abc"), b.decode("utf-8")
    if a != b:
        acc.bad(key, "inside the session: differs from the response without limit", path=path, now=t)
    if [h for h in r.hlist if h[0] != "Content-Length"] != [h for h in p.hlist if h[0] != "Content-Length"]:
        acc.bad(key, "inside the session: headers differ", path=path, now=t)


def shard_nolimit(acc, oi):
    """Without a limit the parameters have no effect."""
    opts = OPTS[oi]
    now = float(BASE + 7.25)
    with env.Server([catalogue()]) as srv:
        for res in RES:
            tail = "sq/" + (res % media(opts, now) if "%d" in res else res)
            p = srv.get(opts + tail, now)
            for sts in (0, 1, BASE - 10 ** 6, BASE, BASE + 1000, "abc", ""):
                for form in SESS:
                    for path in (form % sts + opts + tail, opts + form % sts + tail):
                        r = srv.get(path, now)
                        acc.state()
                        acc.trans("no limit")
                        compare(acc, "%s@%s no limit" % (path, now), r, p, sts, path, now)
        acc.trace()


def main():
    Ls = (10, 600, 7200) if not core.thorough() else (1, 7, 10, 60, 600, 3600, 7200, 86400)
    jobs = []
    for o in range(len(OPTS)):
        for L in Ls[:2] if not core.thorough() else Ls:
            jobs.append(("shard_redirect", (o, L)))
        for L in Ls:
            jobs.append(("shard_window", (o, L)))
        jobs.append(("shard_nolimit", (o,)))
    return core.run_check(PID, __name__, jobs,
                          bounds="%d option sets x %d limits x 7 resources x 3 placements x 14 offsets from the session start x 3 fractions; redirects for 3 prefixes x 7 queries x 3 hosts x "
                                 "http/https x 3 instants" % (len(OPTS), len(Ls)),
                          assumptions=["the limit is set through mod_dashlivesim.MAX_SESSION_LENGTH, as a deployment does", "up to 5 s of clock difference is tolerated either way"])
