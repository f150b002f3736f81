"""C09: remote (xlink) Periods."""
import re
from xml.etree import ElementTree as ET
from urllib.parse import urljoin
from .. import assets, env, model, core, dash
from .c05 import HOST
from .c08 import RATES

PID = "C09"
ADS = {1: "6_ad", 5: "6_ad", 2: "6_ad_twoperiods", 3: "6_ad_twoperiods_withremote", 4: "invalid"}


def catalogue():
    return {"p1sq": assets.make_sq("p1sq"),
            "six": assets.make_simple("six", 6, 3, first=2, tsbd=20, mpd_kw=dict(period_attrs=' start="PT0S" id="x"'))}


def canon(e, skip=()):
    return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items() if k not in skip)), (e.text or "").strip(),
            tuple(canon(c) for c in e))


def mpd_canon(root):
    return canon(root, ())


def sessions(asset):
    b = 1500000000 // asset.dur * asset.dur
    return [model.Opts(), model.Opts(start=b), model.Opts(start=b, snr=7, ato=1), model.Opts(tsbd=130, extra=("continuous_1",)),
            model.Opts(start=b, extra=("segtimeline_1",)), model.Opts(ato="inf")]


def shard(acc, aname, rate):
    asset = catalogue()[aname]
    P = 3600 // rate
    with env.Server([asset]) as srv:
        for m in RATES:
            if rate % m:
                continue
            frac = rate // m
            for o in sessions(asset):
                mod = model.Model(asset, o)
                a = mod.ast if o.start is not None else 1600000000 // P * P
                for k in (0, 1, 2, 9, 10, 11):
                    for x in (-1, 0, 2 * asset.dur, P // 2, P // 2 + 1):
                        now = a + k * P + x
                        for ad in (0, 1, 2, 3, 4, 5):
                            if ad and (not core.thorough()) and (k + m + ad) % 3:
                                continue
                            one(acc, srv, asset, o, rate, m, frac, ad, P, now, a)
                acc.trace()
            acc.sample("periods_%d/xlink_%d on %s: 30 instants x 6 sessions x insertad 0..5" % (rate, m, aname))


def one(acc, srv, asset, o, rate, m, frac, ad, P, now, a):
    plain = "periods_%d/%s%s/Manifest.mpd" % (rate, o.prefix(), asset.name)
    path = "periods_%d/xlink_%d/%s%s%s/Manifest.mpd" % (rate, m, "insertad_%d/" % ad if ad else "", o.prefix(), asset.name)
    key = "%s@%s" % (path, now)
    acc.state()

    def bad(what, text):
        acc.bad(key + "#" + what, text, path=path, now=now)
    r0, r1 = srv.get(plain, now), srv.get(path, now)
    acc.trans("mpd")
    if r0.status != 200 or r1.status != 200:
        bad("status", "MPD answered %s, with xlink %s %r" % (r0.status, r1.status, r1.body[:100]))
        return
    try:
        root0, root1 = ET.fromstring(r0.body), ET.fromstring(r1.body)
    except ET.ParseError as e:
        bad("xml", "not well-formed: %s" % e)
        return
    NS, X = dash.NS, dash.XLINK
    p0, p1 = root0.findall(NS + "Period"), root1.findall(NS + "Period")
    # everything except the Periods is unchanged (BaseURL differs by the options themselves)
    h0 = [c for c in root0 if c.tag != NS + "Period"]
    h1 = [c for c in root1 if c.tag != NS + "Period"]
    fix = lambda c: re.sub(r"/xlink_\d+|/insertad_\d", "", repr(canon(c)))
    if [fix(c) for c in h0] != [fix(c) for c in h1] or root0.attrib != root1.attrib:
        bad("head", "MPD changed outside the Periods")
    if len(p0) != len(p1):
        bad("count", "%d Periods, %d without xlink" % (len(p1), len(p0)))
        return
    seen = 0
    for i, (x, y) in enumerate(zip(p0, p1)):
        nr = int(x.get("id")[1:])
        elig = nr % frac == 0
        if elig:
            seen += 1
        linked = y.get(X + "href")
        want_link = elig and not (ad and seen == 1)
        if bool(linked) != want_link:
            bad("which", "Period %s %s a remote reference" % (x.get("id"), "is" if linked else "is not"))
            continue
        if linked:
            if y.get(X + "actuate") != "onLoad":
                bad("actuate", "xlink:actuate %r" % y.get(X + "actuate"))
            if ad:
                want = "invalidurl.php" if ad == 4 else "ad.php?id=" + ADS[ad]
                if not linked.endswith(want):
                    bad("ad", "insertad_%d reference %s" % (ad, linked))
                if (ad == 5) != (len(y) > 0):
                    bad("default", "default content present: %s" % (len(y) > 0))
                if ad == 5 and [canon(c) for c in y] != [canon(c) for c in x]:
                    bad("default", "default content differs from the replaced Period")
                continue
            if len(y):
                bad("content", "remote Period has content")
            # resolve now and while the Period is still announced
            for t in (now, now + 1, now + P // 2, now + P):
                url = urljoin(HOST + "/livesim/" + path, linked)
                if not url.startswith(HOST):
                    bad("url", "reference %s leaves the host" % linked)
                    break
                rp = srv.get(url[len(HOST):], t, prefix="")
                later = srv.get(plain, t)
                match = [c for c in ET.fromstring(later.body).findall(NS + "Period") if c.get("id") == x.get("id")]
                acc.trans("resolve")
                k2 = "%s@%s" % (url, t)
                if not match:
                    if rp.status == 200 and rp.body.strip():
                        acc.bad(k2, "a Period that is no longer announced resolves to %r" % rp.body[:60], path=url, now=t)
                    continue
                if rp.status != 200:
                    acc.bad(k2, "reference answered %s" % rp.status, path=url, now=t)
                    continue
                try:
                    e = ET.fromstring(rp.body)
                except ET.ParseError as ex:
                    acc.bad(k2, "resolved entity not well-formed: %s" % ex, path=url, now=t)
                    continue
                if canon(e) != canon(match[0]):
                    acc.bad(k2, "resolved Period differs from the one replaced: %r" % rp.body[:200], path=url, now=t)
                if e.get("start") != x.get("start"):
                    acc.bad(k2, "resolved Period starts at %s, the replaced at %s" % (e.get("start"), x.get("start")), path=url, now=t)
        else:
            if ad and i + 1 < len(p1) and p1[i + 1].get(X + "href") and dash.duration(y.get("duration") or "PT0S") != P:
                bad("duration", "Period %s before the remote one has duration %s, expected %d s" % (y.get("id"), y.get("duration"), P))
            cx, cy = canon(x, ()), canon(y, ("duration",) if ad else ())
            kids = [c for c in y if c.tag != NS + "AssetIdentifier"]
            n_id = len(y) - len(kids)
            if ad:
                if n_id != 1:
                    bad("asset", "Period %s has %d AssetIdentifiers" % (y.get("id"), n_id))
                same = [canon(c) for c in kids] == [canon(c) for c in x] and x.get("start") == y.get("start")
            else:
                same = cx == cy
            if not same:
                bad("plain", "Period %s changed although it is not remote" % x.get("id"))


def refuse_shard(acc):
    """Fractions that are not whole, remote Periods without Periods, ads without remote Periods."""
    with env.Server([assets.make_sq()]) as srv:
        todo = ["xlink_%d" % n for n in range(1, 61)] + ["xlink_%d/insertad_%d" % (n, k) for n in (1, 2, 30, 60) for k in range(1, 6)]
        todo += ["%sinsertad_%d" % (p, k) for k in range(1, 6) for p in [""] + ["periods_%d/" % n for n in RATES]]
        todo += ["periods_%d/xlink_%d%s" % (n, k, t) for n in RATES for k in range(1, 61) if n % k for t in ("", "/insertad_1", "/insertad_4")]
        for opts in todo:
            acc.state()
            acc.trans("refused rate")
            for res in ("Manifest.mpd",) + (("Manifest.mpd+p100.period",) if "insertad" not in opts else ()):
                r = srv.get("%s/sq/%s" % (opts, res), 1600000000)
                if r.status == 200:
                    acc.bad(opts + res, "%s is answered for %s" % (res, opts), path=opts)
    acc.trace()


def main():
    jobs = [("refuse_shard", ())] + [("shard", (a, rate)) for a in catalogue() for rate in RATES if (3600 // rate) % catalogue()[a].dur == 0]
    return core.run_check(PID, __name__, jobs,
                          bounds="2 assets x every legal (periods, xlink) pair x 6 sessions x 30 instants x insertad 0..5 (ad modes on a third of the "
                                 "instants in the quick tier); each reference resolved at 4 instants")
