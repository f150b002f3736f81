"""C32: ISO 8601 durations and timestamps."""
import calendar
import datetime
import itertools
from .. import assets, env, core, dash

PID = "C32"
DIRECT_API = True
DAY = 86400


def conv():
    env.setup()
    from dashlivesim.dashlib import timeformatconversions as t
    return t


def one(acc, t, n):
    """Write, read with the independent parser, and read back with the code."""
    try:
        s = t.seconds_to_iso_duration(n)
    except Exception as e:      # noqa
        acc.bad("write %s" % n, "seconds_to_iso_duration(%s) raised %r" % (n, e), n=n)
        return
    try:
        got = dash.duration(s)
    except Exception as e:      # noqa
        acc.bad("write %s" % n, "seconds_to_iso_duration(%s) = %r is not an ISO 8601 duration (%s)" % (n, s, e), n=n)
        return
    if got != n:
        acc.bad("write %s" % n, "seconds_to_iso_duration(%s) = %r, which denotes %s s" % (n, s, got), n=n)
    try:
        back = t.iso_duration_to_seconds(s)
    except Exception as e:      # noqa
        back = repr(e)
    if back != n:
        acc.bad("read %s" % s, "iso_duration_to_seconds(%r) = %s (written for %s)" % (s, back, n), s=s)


def dur_shard(acc, lo, hi, step):
    t = conv()
    for n in range(lo, hi, step):
        acc.state()
        acc.trans("round trip")
        one(acc, t, n)
    acc.trace()
    acc.sample("durations %d..%d step %d" % (lo, hi, step))


def edge_shard(acc):
    """All sums of unit multiples around the unit boundaries, up to 40000 days (the documented P100Y is 36500 days)."""
    t = conv()
    for d, h, m, s in itertools.product((0, 1, 2, 9, 10, 30, 31, 99, 100, 364, 365, 366, 400, 1000, 36500, 40000), range(24), (0, 1, 9, 10, 30, 59),
                                        (0, 1, 9, 10, 30, 59)):
        acc.state()
        acc.trans("round trip")
        one(acc, t, ((d * 24 + h) * 60 + m) * 60 + s)
    acc.trace()
    acc.sample("durations at all unit boundaries up to 40000 days")


def read_shard(acc):
    """Every duration string of the grammar is read as its whole seconds; everything else is refused."""
    t = conv()
    vals = {"D": (None, "0", "1", "10", "400"), "H": (None, "0", "1", "23", "100"), "M": (None, "0", "1", "59", "90"),
            "S": (None, "0", "1", "59", "3600", "10.5", "0.0", "1.999")}
    for d, h, m, s in itertools.product(vals["D"], vals["H"], vals["M"], vals["S"]):
        txt = "P" + (d + "D" if d else "")
        tp = "".join(v + u for v, u in ((h, "H"), (m, "M"), (s, "S")) if v)
        txt += "T" + tp if tp else ""
        if txt == "P":
            continue
        acc.state()
        acc.trans("read")
        want = int(dash.duration(txt))
        try:
            got = t.iso_duration_to_seconds(txt)
        except Exception as e:      # noqa
            got = repr(e)
        if got != want:
            acc.bad("read %s" % txt, "iso_duration_to_seconds(%r) = %s, expected %s" % (txt, got, want), s=txt)
    # all strings up to length 5 over a small alphabet: those outside the grammar raise
    for ln in range(0, 6):
        for tup in itertools.product("PT1DHMS.", repeat=ln):
            txt = "".join(tup)
            acc.state()
            try:
                want = int(dash.duration(txt))
            except Exception:       # noqa
                want = None
            # year and month designators are outside the supported subset
            head = txt.split("T")[0]
            if want is not None and "M" in head:
                want = None
            try:
                got = t.iso_duration_to_seconds(txt)
            except t.TimeFormatConversionError:
                got = None
            except Exception as e:  # noqa
                got = repr(e)
            acc.trans("accepted" if want is not None else "not a duration")
            if got != want and not (want is None and txt.endswith("\n")):
                acc.bad("read %s" % txt, "iso_duration_to_seconds(%r) = %s, expected %s" % (
                    txt, got, "a TimeFormatConversionError" if want is None else want), s=txt)
    acc.trace()


def ts_one(acc, t, n):
    acc.state()
    acc.trans("timestamp")
    try:
        s = t.make_timestamp(n)
        got = dash.timestamp(s)
    except Exception as e:          # noqa
        acc.bad("ts %s" % n, "make_timestamp(%s): %r" % (n, e), n=n)
        return
    if got != int(n) or not s.endswith("Z"):
        acc.bad("ts %s" % n, "make_timestamp(%s) = %r, which is %s" % (n, s, got), n=n)


def ts_shard(acc, y0, y1):
    """Every midnight and the second before, of every day of the years; every second of some days; fractions."""
    t = conv()
    d0 = calendar.timegm((y0, 1, 1, 0, 0, 0)) // DAY
    d1 = calendar.timegm((y1, 1, 1, 0, 0, 0)) // DAY
    for d in range(d0, d1):
        for off in (0, 1, 43199, 43200, DAY - 1):
            ts_one(acc, t, d * DAY + off)
        ts_one(acc, t, d * DAY + 59.984375)
    for (mo, dy) in ((2, 28), (12, 31), (6, 30)):
        base = calendar.timegm((y0, mo, dy, 0, 0, 0))
        for s in range(0, DAY, 1 if core.thorough() else 7):
            ts_one(acc, t, base + s)
    # independent calendar
    for d in range(d0, d1):
        want = (datetime.date(1970, 1, 1) + datetime.timedelta(days=d)).isoformat() + "T00:00:00Z"
        if t.make_timestamp(d * DAY) != want:
            acc.bad("ts %s" % (d * DAY), "make_timestamp(%d) = %s, expected %s" % (d * DAY, t.make_timestamp(d * DAY), want))
    acc.trace()
    acc.sample("timestamps of every day %d..%d" % (y0, y1))


def mpd_shard(acc, part, parts):
    """The durations written in MPDs denote exactly the requested number of seconds."""
    a = assets.make_simple("sq", 2, 4)
    vals = sorted(set(list(range(0, 130)) + [h * 3600 + x for h in (1, 2, 23, 24, 25, 48, 100, 8760) for x in (-61, -60, -1, 0, 1, 59, 60, 61)] +
                      [DAY * k for k in (1, 2, 7, 30, 365, 400)]))
    with env.Server([a]) as srv:
        for i, n in enumerate(vals):
            if i % parts != part:
                continue
            for opt, attr in (("tsbd", "timeShiftBufferDepth"), ("spd", "suggestedPresentationDelay"), ("mup", "minimumUpdatePeriod")):
                if opt == "mup" and n == 0:
                    continue
                path = "%s_%d/sq/Manifest.mpd" % (opt, n)
                acc.state()
                acc.trans("mpd")
                r = srv.get(path, 1600000000)
                try:
                    root = dash.ET.fromstring(r.body)
                    got = dash.duration(root.get(attr))
                except Exception as e:      # noqa
                    got = "%r (%s)" % (e, r.status)
                if got != n:
                    acc.bad(path, "%s: %s is %s" % (path, attr, got), path=path)
            path = "start_%d/dur_%d/sq/Manifest.mpd" % (1600000000, max(2, n // 2 * 2))
            r = srv.get(path, 1600000001)
            try:
                root = dash.ET.fromstring(r.body)
                got = dash.duration(root.get("mediaPresentationDuration"))
                ast = dash.timestamp(root.get("availabilityStartTime"))
                aet = dash.timestamp(root.get("availabilityEndTime"))
            except Exception as e:      # noqa
                acc.bad(path, "%s: %r" % (path, e), path=path)
                continue
            acc.trans("mpd")
            if got != max(2, n // 2 * 2) or aet - ast != got:
                acc.bad(path, "%s: duration %s, %s..%s" % (path, got, ast, aet), path=path)
        acc.trace()


def main():
    top = 40 * DAY if not core.thorough() else 400 * DAY
    n = 24
    jobs = [("dur_shard", (i * 4 * DAY // n, (i + 1) * 4 * DAY // n, 1)) for i in range(n)]
    step = 61 if not core.thorough() else 1
    jobs += [("dur_shard", (4 * DAY + i * (top - 4 * DAY) // n, 4 * DAY + (i + 1) * (top - 4 * DAY) // n, step)) for i in range(n)]
    jobs += [("dur_shard", (0, 401 * DAY, 3600)), ("dur_shard", (59, 401 * DAY, 3600)), ("edge_shard", ()), ("read_shard", ())]
    jobs += [("ts_shard", (y, min(y + 6, 2106))) for y in range(1970, 2106, 6)]
    jobs += [("mpd_shard", (i, 8)) for i in range(8)]
    return core.run_check(PID, __name__, jobs,
                          bounds="every second of 0..4 days, every unit boundary combination to 40000 days, a %d s grid to %d days; every string up to 5 "
                                 "characters over the duration alphabet; every day 1970..2105" % (step, top // DAY),
                          assumptions=["whole seconds (the only values the server writes)", "years and months are not read"])
