"""C28: MPD metadata: the live MPD is the VoD MPD plus exactly what was asked for."""
import copy
import itertools
import os
from fractions import Fraction as F
from .. import assets, env, core, dash
from ..dash import NS, ET

PID = "C28"
ORDER = ["ProgramInformation", "BaseURL", "Location", "ServiceDescription", "Period", "Metrics", "EssentialProperty", "SupplementalProperty", "UTCTiming"]

SCTE_PROFILE = "http://dashif.org/guidelines/adin/app"
LL_PROFILE = "http://www.dashif.org/guidelines/low-latency-live-v5"
SCTE_SCHEME = "urn:scte:scte35:2013:xml"
UTC = {"direct": "urn:mpeg:dash:utc:direct:2014", "head": "urn:mpeg:dash:utc:http-head:2014", "ntp": "urn:mpeg:dash:utc:ntp:2014",
       "sntp": "urn:mpeg:dash:utc:sntp:2014", "httpxsdate": "urn:mpeg:dash:utc:http-xsdate:2014", "httpiso": "urn:mpeg:dash:utc:http-iso:2014"}

TEMPL = '<SegmentTemplate startNumber="%(first)d" initialization="$RepresentationID$/init.mp4" %(dur)s media="$RepresentationID$/$Number$.m4s"%(tx)s/>'

LAYOUTS = {
    # plain; profiles whose names contain those that are added
    "plain": ('<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="urn:mpeg:dash:profile:isoff-live:2011,urn:com:dashif:dash264,' + SCTE_PROFILE + '-extended,' + LL_PROFILE + '.1" '
              'maxSegmentDuration="PT7.5S" minBufferTime="PT2S" type="static" mediaPresentationDuration="PT8S">'
              '<ProgramInformation><Title>T</Title></ProgramInformation><Period id="precambrian">'
              '<AdaptationSet contentType="video" mimeType="video/mp4">%(t)s<Representation id="V1" codecs="avc1.4D401E" bandwidth="1000"/></AdaptationSet>'
              '<AdaptationSet contentType="audio" mimeType="audio/mp4">%(t)s<Representation id="A1" codecs="mp4a.40.2" bandwidth="500"/></AdaptationSet>'
              '</Period></MPD>'),
    # descriptors, foreign namespaces, text, several sets of one type, BaseURL and Period attributes to replace
    "rich": ('<!-- c --><MPD xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:cenc="urn:mpeg:cenc:2013" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
             'xsi:schemaLocation="urn:mpeg:dash:schema:mpd:2011 DASH-MPD.xsd" profiles="urn:mpeg:dash:profile:isoff-live:2011,' + SCTE_PROFILE + '" '
             'minBufferTime="PT2.5S" maxSubsegmentDuration="PT1S" type="static" mediaPresentationDuration="PT8S">\n'
             '<ProgramInformation lang="en" moreInformationURL="http://x/?a=1&amp;b=2"><Title>R\u00e4ksm\u00f6rg\u00e5s &lt;1&gt;</Title><Source>S</Source></ProgramInformation>\n'
             '<ProgramInformation lang="sv"><Copyright>\u00a9</Copyright></ProgramInformation>\n'
             '<BaseURL serviceLocation="a">http://vod.example.com/x/</BaseURL><BaseURL>other/</BaseURL>\n'
             '<Period id="x&quot;y" start="PT0S" duration="PT8S" bitstreamSwitching="true"><AssetIdentifier schemeIdUri="urn:x" value="v"/>'
             '<AdaptationSet id="7" contentType="video" mimeType="video/mp4" lang="und" par="16:9" maxWidth="640" segmentAlignment="true" startWithSAP="1">'
             '<ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc" cenc:default_KID="00000000-1111"><cenc:pssh>AAAA</cenc:pssh></ContentProtection>'
             '<EssentialProperty schemeIdUri="urn:e" value="1"/><SupplementalProperty schemeIdUri="urn:s" value="2"/><Accessibility schemeIdUri="urn:a"/>'
             '<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>%(t)s'
             '<Representation id="V1" codecs="avc1.4D401E" bandwidth="1000" width="640" sar="1:1"><SubRepresentation level="1"/></Representation>'
             '<Representation id="V2" codecs="avc1" bandwidth="2000"/></AdaptationSet>\n'
             '<AdaptationSet contentType="audio" mimeType="audio/mp4" lang="en">%(t)s<Representation id="A1" bandwidth="500" audioSamplingRate="48000">'
             '<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" value="2"/></Representation></AdaptationSet>\n'
             '<AdaptationSet contentType="audio" mimeType="audio/mp4" lang="sv">%(t)s<Representation id="A1" bandwidth="500"/></AdaptationSet></Period></MPD>'),
    # elements between BaseURL and Period, profile already present, no ProgramInformation
    "desc": ('<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple,' + LL_PROFILE + '" id="vod" minBufferTime="PT2S" type="static" '
             'maxSegmentDuration="PT2S" mediaPresentationDuration="PT8S"><ServiceDescription id="9"><Scope schemeIdUri="urn:v"/></ServiceDescription>'
             '<Period><AdaptationSet contentType="video" mimeType="video/mp4">%(t)s<Representation id="V1" bandwidth="1000"/></AdaptationSet>'
             '<AdaptationSet contentType="text" mimeType="application/mp4">%(t)s<Representation id="S1" bandwidth="5"/></AdaptationSet></Period></MPD>'),
}
TIMES = {"plain": 'duration="2"', "rich": 'timescale="1000" duration="2000"', "desc": 'timescale="1" duration="2"'}


def make(layout):
    n, dur, first = 4, 2, 1
    even = assets.even_segs
    reps = [assets.Rep("V1", "video", 90000, 1, even("v", n, dur * 90000, 2)), assets.Rep("V2", "video", 90000, 1, even("w", n, dur * 90000, 2)),
            assets.Rep("A1", "audio", 48000, 2, even("a", n, dur * 48000, 2)),
            assets.Rep("S1", "subtitles", 1000, 3, [(k * 2000, [assets.Smp(assets.ttml_doc(k, 2), 2000, 0x02000000)]) for k in range(n)],
                       dict(dur_in="tfhd", size_in="tfhd", flags_in="tfhd"))]
    a = assets.Asset(layout, dur, n, first, reps)
    xml = '<?xml version="1.0" encoding="utf-8"?>\n' + LAYOUTS[layout].replace(
        "%(t)s", TEMPL % dict(first=first, dur=TIMES[layout], tx=""))
    a.mpd = lambda manifest=None: xml
    return a


class Req:
    """A request and what it has to lead to."""

    def __init__(self, opts, https=False, host="h.example.com"):
        self.opts, self.https, self.host = opts, https, host
        self.kv = {}
        for o in opts:
            k, v = o.split("_", 1)
            self.kv[k] = v

    def i(self, key, default=None):
        return int(self.kv[key]) if key in self.kv else default

    def path(self, name):
        return "".join(o + "/" for o in self.opts) + name + "/Manifest.mpd"


def strip(e, attrs):
    for a in attrs:
        e.attrib.pop(a, None)


def canon(e):
    def text(x):
        return (x or "").strip()
    return (e.tag, tuple(sorted(e.attrib.items())), text(e.text), tuple((canon(c), text(c.tail)) for c in e))


def first_diff(a, b, where=""):
    if a[0] != b[0]:
        return "%s: %s instead of %s" % (where, b[0], a[0])
    w = where + "/" + a[0].rsplit("}", 1)[-1]
    if a[1] != b[1]:
        return "%s: attributes %s instead of %s" % (w, b[1], a[1])
    if a[2] != b[2]:
        return "%s: text %r instead of %r" % (w, b[2], a[2])
    for x, y in zip(a[3], b[3]):
        d = first_diff(x[0], y[0], w)
        if d:
            return d
        if x[1] != y[1]:
            return "%s: text %r instead of %r" % (w, y[1], x[1])
    if len(a[3]) != len(b[3]):
        return "%s: %d children instead of %d" % (w, len(b[3]), len(a[3]))
    return None


def judge(asset, req, now, body):
    """List of problems of the live MPD."""
    d = asset.dur
    out = []
    live, vod = ET.fromstring(body), ET.fromstring(asset.mpd())

    def need(what, got, want):
        if got != want:
            out.append("%s is %r, expected %r" % (what, got, want))

    def dur(attr):
        v = live.get(attr)
        return None if v is None else dash.duration(v)
    sec = int(now)
    tl = req.kv.get("segtimeline") == "1" or req.kv.get("segtimelinenr") == "1"
    ll = "chunkdur" in req.kv
    start = req.i("start")
    ast = 0 if start is None else start // d * d
    nper = req.i("periods", -1)
    need("type", live.get("type"), "dynamic")
    need("availabilityStartTime", dash.timestamp(live.get("availabilityStartTime")), ast)
    need("publishTime", dash.timestamp(live.get("publishTime")), sec)
    need("timeShiftBufferDepth", dur("timeShiftBufferDepth"), req.i("tsbd", asset.tsbd))
    need("suggestedPresentationDelay", dur("suggestedPresentationDelay"), req.i("spd"))
    mup = req.i("mup", 36500 * 86400 if start is None else 10)
    if tl:
        mup = 0
    elif nper > 0:
        mup = 3600 // nper // 2 - 5
    got = dur("minimumUpdatePeriod")
    if live.get("minimumUpdatePeriod") == "P100Y":
        got = 36500 * 86400
    need("minimumUpdatePeriod", got, mup)
    need("maxSegmentDuration", dur("maxSegmentDuration"), None if tl else d)
    if "dur" in req.kv:
        need("mediaPresentationDuration", dur("mediaPresentationDuration"), req.i("dur"))
        need("availabilityEndTime", dash.timestamp(live.get("availabilityEndTime")), ast + req.i("dur"))
    else:
        need("mediaPresentationDuration", live.get("mediaPresentationDuration"), None)
        need("availabilityEndTime", live.get("availabilityEndTime"), None)
    prof = live.get("profiles").split(",")
    want = vod.get("profiles").split(",") + ([SCTE_PROFILE] if "scte35" in req.kv else []) + ([LL_PROFILE] if ll else [])
    if req.kv.get("segtimelineloss") == "1":         # timelines with holes are not for clients of the simple profile
        want = [p.replace("dash-if-simple", "dash-if-main") for p in want]
    if len(set(prof)) != len(prof) or set(prof) != set(want):
        out.append("profiles %s, expected %s" % (prof, want))

    # children in the order the MPD schema requires
    ranks = [ORDER.index(x.tag[len(NS):]) for x in live if x.tag[len(NS):] in ORDER]
    if ranks != sorted(ranks):
        out.append("children of the MPD in the order %s" % [x.tag[len(NS):] for x in live])

    # children added at the top
    bu = live.findall(NS + "BaseURL")
    scheme = "https" if req.https else "http"
    opts = "".join(o + "/" for o in req.opts)
    need("BaseURL", [(b.text or "").strip() for b in bu], ["%s://%s/livesim/%s%s/" % (scheme, req.host, opts, asset.name)])
    ato = req.kv.get("ato")
    if ato is not None and ato != "inf":
        ato = max(F(ato), F(0)) or None
    for b in bu:
        v = b.get("availabilityTimeOffset")
        got = v if v in (None, "INF") else F(v)
        need("BaseURL availabilityTimeOffset", got, None if ll else ("INF" if ato == "inf" else ato))
        live.remove(b)
    for b in vod.findall(NS + "BaseURL"):
        vod.remove(b)
    utc = live.findall(NS + "UTCTiming")
    methods = req.kv["utc"].split("-") if "utc" in req.kv else (["httpiso"] if ll else [])
    need("UTC timing schemes", [u.get("schemeIdUri") for u in utc], [UTC[m] for m in methods])
    for u, m in zip(utc, methods):
        v = u.get("value")
        if m == "direct":
            need("UTCTiming direct", dash.timestamp(v), sec)
        elif m == "head":
            if not (v or "").startswith("%s://%s/" % (scheme, req.host)):
                out.append("UTCTiming head URL %r for a request to %s://%s" % (v, scheme, req.host))
        elif m.startswith("http"):
            if not (v or "").startswith("http"):
                out.append("UTCTiming %s value %r" % (m, v))
        elif not v:
            out.append("UTCTiming %s without value" % m)
    for u in utc:
        live.remove(u)
    sds = live.findall(NS + "ServiceDescription")
    old = [canon(x) for x in vod.findall(NS + "ServiceDescription")]
    new = [x for x in sds if canon(x) not in old]
    need("new ServiceDescriptions", len(new), 1 if ll else 0)
    for x in new:
        lat = x.find(NS + "Latency")
        if lat is None or not int(lat.get("min")) <= int(lat.get("target")) <= int(lat.get("max")):
            out.append("ServiceDescription without consistent Latency")
        if x.find(NS + "PlaybackRate") is None:
            out.append("ServiceDescription without PlaybackRate")
        live.remove(x)

    # Periods
    lp, vp = live.findall(NS + "Period"), vod.findall(NS + "Period")
    if nper <= 0 and len(lp) != 1 or not lp:
        out.append("%d Periods" % len(lp))
    snr = req.i("snr", 0)
    for p in lp:
        start_s = dash.duration(p.get("start"))
        if not p.get("id"):
            out.append("Period without id")
        if nper < 0:
            need("Period start", start_s, 0)
        p.set("id", "P")
        strip(p, ("start", "duration"))
        tmo = req.i("timeoffset")
        pto = (ast - tmo if tmo is not None else 0) + start_s
        sb = [x for x in p.findall(NS + "SegmentBase")]
        if req.i("peroff", -1) >= 0 and (pto or sb):
            need("SegmentBase presentationTimeOffset", [x.get("presentationTimeOffset", "0") for x in sb], [str(pto)])
            if sb:
                p.remove(sb[0])
        elif sb:
            out.append("unexpected SegmentBase")
        for ad in p.findall(NS + "AdaptationSet"):
            ctype = ad.get("contentType")
            inb = [x for x in ad.findall(NS + "InbandEventStream")]
            need("InbandEventStreams of %s" % ctype, [x.get("schemeIdUri") for x in inb], [SCTE_SCHEME] if "scte35" in req.kv and ctype == "video" else [])
            prt = ad.findall(NS + "ProducerReferenceTime")
            need("ProducerReferenceTimes", len(prt), 1 if ll else 0)
            for x in prt:
                # segment time 0 is the epoch
                wc, pt = dash.timestamp(x.get("wallClockTime")), x.get("presentationTime")
                if (wc, pt) != (0, "0") or x.find(NS + "UTCTiming") is None:
                    out.append("ProducerReferenceTime wallClockTime %s presentationTime %s" % (x.get("wallClockTime"), pt))
            for x in inb + prt:
                ad.remove(x)
            for st in ad.findall(NS + "SegmentTemplate"):
                need("availabilityTimeComplete", st.get("availabilityTimeComplete"), "false" if ll else None)
                v = st.get("availabilityTimeOffset")
                got = None if v is None else ("INF" if v == "INF" else F(v))
                need("SegmentTemplate availabilityTimeOffset", got, None if not ll else ("INF" if ato == "inf" else (ato or 0)))
                strip(st, ("availabilityTimeComplete", "availabilityTimeOffset"))
                is_tl = tl and ctype in ("video", "audio")
                n0 = 1 if snr == -1 else snr
                n0 += pto // d
                if not is_tl:
                    need("startNumber", st.get("startNumber", "1" if snr == -1 else None), str(n0))
                    if (req.kv.get("snr") == "-1" and tmo is None and nper < 0) == ("startNumber" in st.attrib):
                        out.append("startNumber %s present/absent" % st.get("startNumber"))
                    if req.i("peroff", -1) < 0:
                        need("presentationTimeOffset", int(st.get("presentationTimeOffset", 0)), pto * (1 if "timescale" not in st.attrib else int(st.get("timescale"))))
                st.set("startNumber", "1")
                strip(st, ("presentationTimeOffset",))
                if is_tl:
                    tls = st.findall(NS + "SegmentTimeline")
                    need("SegmentTimelines", len(tls), 1)
                    for x in tls:
                        st.remove(x)
                    need("timescale", st.get("timescale"), {"video": "90000", "audio": "48000"}[ctype])
                    need("duration", st.get("duration"), None)
                    st.attrib.pop("timescale", None)
                    if req.kv.get("segtimeline") == "1":
                        st.set("media", st.get("media").replace("t$Time$", "$Number$"))
    for p in vp:
        p.set("id", "P")
        strip(p, ("start", "duration"))
        for ad in p.findall(NS + "AdaptationSet"):
            for st in ad.findall(NS + "SegmentTemplate"):
                st.set("startNumber", "1")
                if tl and ad.get("contentType") in ("video", "audio"):
                    strip(st, ("timescale", "duration"))
    # everything else is as in the VoD MPD
    M = ("type", "availabilityStartTime", "availabilityEndTime", "publishTime", "timeShiftBufferDepth", "suggestedPresentationDelay", "minimumUpdatePeriod",
         "maxSegmentDuration", "mediaPresentationDuration", "profiles", "id")
    strip(live, M)
    strip(vod, M)
    if vp and lp:
        pos = list(vod).index(vp[0])
        for extra in range(1, len(lp)):
            vod.insert(pos + extra, copy.deepcopy(vp[0]))
    diff = first_diff(canon(vod), canon(live))
    if diff:
        out.append("differs from the VoD MPD: %s" % diff)
    return out


OPTIONS = [["utc_direct"], ["utc_head-direct"], ["spd_8"], ["spd_0"], ["ato_0.5"], ["ato_inf"], ["mup_7"], ["mup_0"], ["tsbd_0"], ["tsbd_86400"], ["scte35_1"], ["scte35_3"],
           ["chunkdur_1"], ["snr_7"], ["snr_-1"], ["start_1599999001"], ["start_1599999001", "dur_3600"], ["timeoffset_0"], ["peroff_1"], ["segtimeline_1"], ["segtimelinenr_1"],
           ["sidx_1"], ["init_5"], ["periods_4"], ["segtimelineloss_1"], ["sts_1599999000", "sid_abcdef"], ["ato_-3"], ["continuous_0"], ["segtimelineloss_0"], ["segtimeline_0"], ["segtimelinenr_0"], ["sidx_0"]]
NOWS = [1600000000, 1600000059.984375, 1600000000.5]


def conflict(opts):
    keys = [o.split("_", 1)[0] for o in opts]
    if len(set(keys)) != len(keys) or {"segtimeline", "segtimelinenr"} <= set(keys):
        return True
    s = set(keys)
    if "timeoffset" in s and "start" not in s:
        return True         # media time before 0
    if ("periods" in s or "timeoffset" in s) and s & {"segtimeline", "segtimelinenr"} and "peroff" in s:
        return True
    return False


def one(acc, srv, asset, req, now):
    path = req.path(asset.name)
    key = "%s@%s%s%s" % (path, now, " https" if req.https else "", "" if req.host == "h.example.com" else " " + req.host)
    acc.state()
    r = srv.get(path, now, https=req.https, host=req.host)
    acc.trans("mpd")
    if r.status != 200:
        acc.bad(key, "answered %s %r" % (r.status, r.body[:100]), path=path, now=now)
        return
    try:
        for p in judge(asset, req, now, r.body):
            acc.bad(key + " " + p.split(" is ")[0][:60], p, path=path, now=now)
    except (dash.MpdError, ET.ParseError) as e:
        acc.bad(key, "not a valid MPD: %s" % e, path=path, now=now)


def opt_shard(acc, lname, part, parts, size):
    asset = make(lname)
    with env.Server([asset]) as srv:
        for i, combo in enumerate(itertools.chain.from_iterable(itertools.combinations(OPTIONS, k) for k in range(0, size + 1))):
            if i % parts != part:
                continue
            opts = [o for c in combo for o in c]
            if conflict(opts):
                continue
            for j, now in enumerate(NOWS):
                if len(combo) > 2 and (i // parts + j) % 3:
                    continue
                one(acc, srv, asset, Req(opts), now)
            if len(combo) == 2:                 # the other order
                one(acc, srv, asset, Req([o for c in combo[::-1] for o in c]), NOWS[0])
        acc.trace()
        acc.sample("layout %s: option subsets, part %d" % (lname, part))


def utc_shard(acc, lname, part, parts):
    """Every ordered selection of UTC methods; hosts and schemes; consecutive seconds."""
    asset = make(lname)
    with env.Server([asset]) as srv:
        i = 0
        for k in range(1, 7):
            for perm in itertools.permutations(UTC, k):
                i += 1
                if i % parts != part:
                    continue
                for https in (False, True) if k < 4 else (bool(i & 2),):
                    for ex in ([], ["chunkdur_1"]) if k < 3 else ([],):
                        one(acc, srv, asset, Req(ex + ["utc_" + "-".join(perm)], https, "h.example.com" if i % 3 else "10.0.0.1:8059"), 1600000000 + i + 0.25)
        for host in ("h.example.com", "localhost:8059", "10.0.0.1", "[::1]:80"):
            for https in (False, True):
                for opts in ([], ["utc_head"], ["start_1599999001", "dur_3600"], ["periods_4"], ["chunkdur_0.5", "ato_1"]):
                    one(acc, srv, asset, Req(opts, https, host), 1600000000)
        for s in range(0, 130):
            one(acc, srv, asset, Req(["utc_direct-head"]), 1600000000 + s + (s % 8) / 8)
            one(acc, srv, asset, Req(["spd_%d" % s, "mup_%d" % s, "tsbd_%d" % (s * 61)]), 1600000000 + s)
        acc.trace()


def main():
    jobs = []
    for l in LAYOUTS:
        for part in range(8):
            jobs.append(("opt_shard", (l, part, 8, 3 if l != "desc" or core.thorough() else 2)))
        for part in range(4):
            jobs.append(("utc_shard", (l, part, 4)))
    return core.run_check(PID, __name__, jobs,
                          bounds="3 VoD MPD layouts x all compatible subsets of up to 3 of %d options (both orders of pairs) x 3 instants; every ordered "
                                 "selection of the 6 UTC methods; hosts x schemes; 130 consecutive seconds" % len(OPTIONS),
                          assumptions=["single-Period VoD MPD with SegmentTemplate in the AdaptationSets, without own presentationTimeOffset"])
