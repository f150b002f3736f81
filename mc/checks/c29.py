"""C29: every MPD (and remote Period) that is sent follows the MPD schema: element order, occurrence, attributes and data types."""
import itertools
import re
from .. import assets, env, core, dash
from ..dash import NS, ET
from . import c28

PID = "C29"

# ISO/IEC 23009-1 (4th edition), the part that a live MPD of this service can contain.  Children in schema order, "?" at most one, "+" at least one, "1" one.
DESC = (["schemeIdUri:uri!", "value", "id"], None)
REPBASE = ["FramePacking", "AudioChannelConfiguration", "ContentProtection", "OutputProtection?", "EssentialProperty", "SupplementalProperty", "InbandEventStream",
           "Switching", "RandomAccess", "GroupLabel", "Label", "ProducerReferenceTime", "ContentPopularityRate", "Resync"]
REPBASE_A = ["profiles", "width:uint", "height:uint", "sar", "frameRate", "audioSamplingRate", "mimeType", "segmentProfiles", "codecs", "containerProfiles",
             "maximumSAPPeriod:double", "startWithSAP:uint", "maxPlayoutRate:double", "codingDependency:bool", "scanType", "selectionPriority:uint", "tag"]
SEGBASE_A = ["timescale:uint", "presentationTimeOffset:uint", "presentationDuration:uint", "timeShiftBufferDepth:dur", "indexRange", "indexRangeExact:bool",
             "availabilityTimeOffset:double", "availabilityTimeComplete:bool", "eptDelta:int", "pdDelta:int"]
SCHEMA = {
    "MPD": (["id", "profiles!", "type:type", "availabilityStartTime:dt", "publishTime:dt", "availabilityEndTime:dt", "mediaPresentationDuration:dur",
             "minimumUpdatePeriod:dur", "minBufferTime:dur!", "timeShiftBufferDepth:dur", "suggestedPresentationDelay:dur", "maxSegmentDuration:dur",
             "maxSubsegmentDuration:dur"],
            ["ProgramInformation", "BaseURL", "Location", "PatchLocation", "ServiceDescription", "InitializationSet", "InitializationGroup",
             "InitializationPresentation", "ContentProtection", "Period+", "Metrics", "EssentialProperty", "SupplementalProperty", "UTCTiming", "LeapSecondInformation?"]),
    "ProgramInformation": (["lang", "moreInformationURL:uri"], ["Title?", "Source?", "Copyright?"]),
    "Title": ([], "text"), "Source": ([], "text"), "Copyright": ([], "text"),
    "BaseURL": (["serviceLocation", "byteRange", "availabilityTimeOffset:double", "availabilityTimeComplete:bool", "timeShiftBufferDepth:dur", "rangeAccess:bool"], "uri"),
    "Location": (["serviceLocation"], "uri"),
    "ServiceDescription": (["id:uint"], ["Scope", "Latency", "PlaybackRate", "OperatingQuality", "OperatingBandwidth"]),
    "Scope": DESC, "Latency": (["referenceId:uint", "target:uint", "max:uint", "min:uint"], None), "PlaybackRate": (["max:double", "min:double"], None),
    "Period": (["id", "start:dur", "duration:dur", "bitstreamSwitching:bool"],
               ["BaseURL", "SegmentBase?", "SegmentList?", "SegmentTemplate?", "AssetIdentifier?", "EventStream", "ServiceDescription", "ContentProtection",
                "AdaptationSet", "Subset", "SupplementalProperty", "EmptyAdaptationSet", "GroupLabel", "Preselection"]),
    "AdaptationSet": (REPBASE_A + ["id:uint", "group:uint", "lang", "contentType", "par", "minBandwidth:uint", "maxBandwidth:uint", "minWidth:uint", "maxWidth:uint",
                                   "minHeight:uint", "maxHeight:uint", "minFrameRate", "maxFrameRate", "segmentAlignment:bool", "subsegmentAlignment:bool",
                                   "subsegmentStartsWithSAP:uint", "bitstreamSwitching:bool", "initializationSetRef", "initializationPrincipal"],
                      REPBASE + ["Accessibility", "Role", "Rating", "Viewpoint", "ContentComponent", "BaseURL", "SegmentBase?", "SegmentList?", "SegmentTemplate?",
                                 "Representation"]),
    "Representation": (REPBASE_A + ["id!", "bandwidth:uint!", "qualityRanking:uint", "dependencyId"],
                       REPBASE + ["BaseURL", "ExtendedBandwidth", "SubRepresentation", "SegmentBase?", "SegmentList?", "SegmentTemplate?"]),
    "SubRepresentation": (REPBASE_A + ["level:uint", "bandwidth:uint"], REPBASE),
    "SegmentBase": (SEGBASE_A, ["Initialization?", "RepresentationIndex?"]),
    "SegmentTemplate": (SEGBASE_A + ["duration:uint", "startNumber:uint", "endNumber:uint", "media", "index", "initialization", "bitstreamSwitching"],
                        ["Initialization?", "RepresentationIndex?", "SegmentTimeline?", "BitstreamSwitching?"]),
    "SegmentTimeline": ([], ["S"]), "S": (["t:uint", "n:uint", "d:uint!", "r:int", "k:uint"], None),
    "EventStream": (["schemeIdUri:uri!", "value", "timescale:uint", "presentationTimeOffset:uint"], ["Event"]),
    "Event": (["presentationTime:uint", "duration:uint", "id:uint", "contentEncoding", "messageData"], "text"),
    "InbandEventStream": (["schemeIdUri:uri!", "value", "timescale:uint", "presentationTimeOffset:uint"], None),
    "ProducerReferenceTime": (["id:uint!", "inband:bool", "type:prt", "applicationScheme", "wallClockTime:dt!", "presentationTime:uint!"], ["UTCTiming?"]),
    "Label": (["id:uint", "lang"], "text"), "Subset": (["contains!", "id"], None), "Metrics": (["metrics!"], ["Range", "Reporting"]), "Reporting": DESC,
}
for _n in ("AssetIdentifier", "ContentProtection", "EssentialProperty", "SupplementalProperty", "Accessibility", "Role", "Rating", "Viewpoint", "FramePacking",
           "AudioChannelConfiguration", "UTCTiming"):
    SCHEMA[_n] = DESC


def typed(kind, v):
    if kind == "uint":
        return re.match(r"^\d+$", v) and int(v) < 2 ** 64
    if kind == "int":
        return re.match(r"^-?\d+$", v)
    if kind == "double":
        return re.match(r"^([-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?|-?INF|NaN)$", v)
    if kind == "bool":
        return v in ("true", "false", "0", "1")
    if kind == "type":
        return v in ("static", "dynamic")
    if kind == "prt":
        return v in ("encoder", "captured", "application")
    if kind == "uri":
        return v and not re.search(r'[\s<>"{}|\\^`]', v)
    try:
        (dash.duration if kind == "dur" else dash.timestamp)(v)
        return True
    except dash.MpdError:
        return False


def check(e, where, out):
    if not e.tag.startswith(NS):
        return
    tag = e.tag[len(NS):]
    if tag not in SCHEMA:
        out.append("%s: unknown element %s" % (where, tag))
        return
    where = "%s/%s" % (where, tag)
    attrs, kids = SCHEMA[tag]
    kinds, need = {}, []
    for a in attrs:
        a, req = a.rstrip("!"), a.endswith("!")
        name, _, kind = a.partition(":")
        kinds[name] = kind
        if req:
            need.append(name)
    for k, v in e.attrib.items():
        if k.startswith("{"):
            continue
        if k not in kinds:
            out.append("%s: attribute %s is not allowed" % (where, k))
        elif kinds[k] and not typed(kinds[k], v):
            out.append("%s: %s=%r is not of type %s" % (where, k, v, kinds[k]))
    for k in need:
        if k not in e.attrib:
            out.append("%s: attribute %s missing" % (where, k))
    sub = [c for c in e if isinstance(c.tag, str) and c.tag.startswith(NS)]
    text = (e.text or "") + "".join(c.tail or "" for c in e)
    if kids == "uri":
        if sub or not typed("uri", (e.text or "").strip()):
            out.append("%s: content %r is not a URI" % (where, e.text))
        return
    if kids == "text":
        return
    if text.strip():
        out.append("%s: unexpected text %r" % (where, text.strip()[:40]))
    if kids is None:
        if sub:
            out.append("%s: unexpected child %s" % (where, sub[0].tag))
        return
    names = [k.rstrip("?+") for k in kids]
    seq = [c.tag[len(NS):] for c in sub]
    known = [names.index(s) for s in seq if s in names]
    for s in seq:
        if s not in names:
            out.append("%s: child %s is not allowed" % (where, s))
    if known != sorted(known):
        out.append("%s: children in the order %s" % (where, ", ".join(k for k, _ in itertools.groupby(seq))))
    for k, n in zip(kids, names):
        c = seq.count(n)
        if k.endswith("?") and c > 1:
            out.append("%s: %d times %s" % (where, c, n))
        if k.endswith("+") and c == 0:
            out.append("%s: no %s" % (where, n))
    for c in sub:
        check(c, where, out)


def mpd_rules(root, out):
    """Rules of the text of the standard that the schema cannot express."""
    dyn = root.get("type", "static") == "dynamic"
    if dyn:
        for a in ("availabilityStartTime", "publishTime"):
            if a not in root.attrib:
                out.append("dynamic MPD without %s" % a)
    else:
        for a in ("minimumUpdatePeriod", "timeShiftBufferDepth"):
            if a in root.attrib:
                out.append("static MPD with %s" % a)
        if "mediaPresentationDuration" not in root.attrib:
            out.append("static MPD without mediaPresentationDuration")
    if "minimumUpdatePeriod" not in root.attrib and "mediaPresentationDuration" not in root.attrib:
        out.append("neither minimumUpdatePeriod nor mediaPresentationDuration")
    prof = root.get("profiles", "").split(",")
    if len(set(prof)) != len(prof) or "" in prof:
        out.append("profiles %s" % prof)
    ids = []
    for p in root.findall(NS + "Period"):
        if any(k.endswith("}href") for k in p.attrib):
            continue
        ids.append(p.get("id"))
        if dyn and not p.get("id"):
            out.append("dynamic MPD: Period without id")
        if not p.findall(NS + "AdaptationSet"):
            out.append("Period without AdaptationSet")
        sid = [a.get("id") for a in p.findall(NS + "AdaptationSet") if a.get("id")]
        if len(set(sid)) != len(sid):
            out.append("AdaptationSet ids %s" % sid)
        prt_ids = []
        for a in p.findall(NS + "AdaptationSet"):
            prt_ids = [x.get("id") for x in a.findall(NS + "ProducerReferenceTime")]
            if len(set(prt_ids)) != len(prt_ids):
                out.append("ProducerReferenceTime ids %s" % prt_ids)
            st = a.find(NS + "SegmentTemplate")
            if st is None:
                continue
            tl = st.find(NS + "SegmentTimeline")
            if (tl is None) == ("duration" not in st.attrib):
                out.append("SegmentTemplate with%s duration and with%s SegmentTimeline" % ("out" * ("duration" not in st.attrib), "out" * (tl is None)))
            media = st.get("media", "")
            for m in re.findall(r"\$([^$]*)\$", media):
                if m.split("%")[0] not in ("RepresentationID", "Number", "Time", "Bandwidth", "SubNumber", ""):
                    out.append("unknown identifier in media template %r" % media)
            if "$Time$" in media and tl is None:
                out.append("$Time$ without SegmentTimeline")
            if "$Number$" in media and "$Time$" in media:
                out.append("both $Number$ and $Time$: %r" % media)
    if len(set(ids)) != len(ids):
        out.append("Period ids %s" % ids)
    sd = [x.get("id") for x in root.findall(NS + "ServiceDescription")]
    if len(set(sd)) != len(sd):
        out.append("ServiceDescription ids %s" % sd)


HEAD = ('<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:cenc="urn:mpeg:cenc:2013" profiles="urn:mpeg:dash:profile:isoff-live:2011" '
        'minBufferTime="PT2S" type="static" mediaPresentationDuration="PT8S">')
LAYOUTS = dict(c28.LAYOUTS)
LAYOUTS["full"] = (
    HEAD + '<ProgramInformation><Title>T</Title></ProgramInformation><BaseURL>x/</BaseURL><ServiceDescription id="9"><Scope schemeIdUri="urn:v"/></ServiceDescription>'
    '<Period id="x" duration="PT8S"><SupplementalProperty schemeIdUri="urn:p"/></Period><Metrics metrics="DVBErrors"><Reporting schemeIdUri="urn:r"/></Metrics>'
    '<EssentialProperty schemeIdUri="urn:e"/><SupplementalProperty schemeIdUri="urn:s"/></MPD>').replace(
    '<SupplementalProperty schemeIdUri="urn:p"/>',
    '<BaseURL>./</BaseURL>'
    '<AdaptationSet id="1" contentType="video" mimeType="video/mp4"><FramePacking schemeIdUri="urn:f"/>'
    '<ContentProtection schemeIdUri="urn:c" cenc:default_KID="1"><cenc:pssh>AAAA</cenc:pssh></ContentProtection><EssentialProperty schemeIdUri="urn:e"/>'
    '<SupplementalProperty schemeIdUri="urn:s"/><InbandEventStream schemeIdUri="urn:i" value="1"/><Label>L</Label><Accessibility schemeIdUri="urn:a"/>'
    '<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/><Rating schemeIdUri="urn:r"/><Viewpoint schemeIdUri="urn:v"/>%(t)s'
    '<Representation id="V1" bandwidth="1000"/></AdaptationSet>'
    '<AdaptationSet id="2" contentType="audio" mimeType="audio/mp4"><AudioChannelConfiguration schemeIdUri="urn:a" value="2"/>'
    '<EssentialProperty schemeIdUri="urn:e"/><Label>L</Label><Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>%(t)s'
    '<Representation id="A1" bandwidth="500"/></AdaptationSet><Subset contains="1 2"/><SupplementalProperty schemeIdUri="urn:p"/>')
TIMES = dict(c28.TIMES, full='duration="2"')

GROUPS = [
    ["start_1599999001"], ["start_1599999001", "dur_3600"], ["startrel_-600"], ["startrel_-600", "stoprel_600"], ["start_1599990000", "stop_1599999001"],
    ["periods_4"], ["periods_60"], ["periods_0"], ["xlink_2"], ["etp_4"], ["etp_4", "etpDuration_100"], ["insertad_1"], ["insertad_2"], ["insertad_4"],
    ["insertad_5"], ["mpdcallback_4"], ["mpdcallback_60"], ["continuous_1"], ["segtimeline_1"], ["segtimelinenr_1"], ["segtimelineloss_1"], ["peroff_1"],
    ["scte35_3"], ["chunkdur_1"], ["utc_direct-head-ntp"], ["snr_-1"], ["snr_7"], ["ato_1.5"], ["ato_inf"], ["spd_8"], ["mup_0"], ["tsbd_0"], ["init_5"], ["modulo_10"],
    ["baseurl_u10_d5", "baseurl_d10_u5"], ["baseurl_u50_d5"], ["start_1599999001", "timeoffset_7200"], ["sidx_1"], ["sts_1599999990", "sid_abcdef"], ["tfdt_32"], ["periods_1", "tsbd_180000"],
]
NOWS = [1600000000, 1599999905.5, 1600000700]


def make(lname):
    a = c28.make("plain")
    a.name = lname
    xml = '<?xml version="1.0" encoding="utf-8"?>\n' + LAYOUTS[lname].replace("%(t)s", c28.TEMPL % dict(first=1, dur=TIMES[lname], tx=""))
    a.mpd = lambda manifest=None: xml
    return a


def judge(body, fragment=False):
    out = []
    try:
        root = ET.fromstring(body)
    except ET.ParseError as e:
        return ["not well-formed: %s" % e]
    if root.tag != NS + ("Period" if fragment else "MPD"):
        return ["root element %s" % root.tag]
    check(root, "", out)
    if not fragment:
        mpd_rules(root, out)
    return out


def refusable(opts):
    """Combinations of options that do not go together."""
    kv = dict(o.split("_", 1) for o in opts)
    per = int(kv.get("periods", -1))
    if {"start", "startrel"} & set(kv) and "modulo" in kv:
        return True
    if "xlink" in kv and not (per > 0 and per % int(kv["xlink"]) == 0) or "insertad" in kv and "xlink" not in kv:
        return True
    for k in ("etp", "mpdcallback"):
        if k in kv and not (per > 0 and per % int(kv[k]) == 0):
            return True
    return "etpDuration" in kv and int(kv["etpDuration"]) >= 3600 // per


def one(acc, srv, name, opts, now):
    path = "".join(o + "/" for o in opts) + name + "/Manifest.mpd"
    acc.state()
    r = srv.get(path, now)
    if r.status != 200:
        acc.trans("refused")
        if not refusable(opts):
            acc.bad("%s@%s" % (path, now), "answered %s %r" % (r.status, r.body[:100]), path=path, now=now)
        return False
    acc.trans("mpd")
    for p in judge(r.body):
        acc.bad("%s@%s %s" % (path, now, p[:80]), p, path=path, now=now)
    for m in re.findall(rb'xlink:href="([^"]*\.period)"', r.body)[:2]:
        url = dash.urljoin("http://h.example.com/livesim/" + path, m.decode())
        sub = url.split("/livesim/", 1)[1] if "/livesim/" in url else None
        if sub is None:
            acc.bad("%s@%s href" % (path, now), "remote Period at %r" % url, path=path, now=now)
            continue
        r2 = srv.get(sub, now)
        acc.trans("remote period")
        if r2.status != 200:
            acc.bad("%s@%s remote" % (path, now), "remote Period %r answered %s" % (url, r2.status), path=path, now=now)
            continue
        for p in judge(r2.body, True):
            acc.bad("%s@%s period %s" % (path, now, p[:80]), "remote Period: " + p, path=path, now=now)
    return True


def shard(acc, lname, part, parts, size):
    assert not judge(make(lname).mpd()), judge(make(lname).mpd())       # the VoD MPD itself is valid
    ok = 0
    with env.Server([make(lname)]) as srv:
        for i, combo in enumerate(itertools.chain.from_iterable(itertools.combinations(GROUPS, k) for k in range(0, size + 1))):
            if i % parts != part:
                continue
            opts = [o for c in combo for o in c]
            keys = [o.split("_", 1)[0] for o in opts if not o.startswith("baseurl")]
            if len(set(keys)) != len(keys):
                continue
            # remote Periods, ads, continuity, callbacks and early terminations are options of sessions with several Periods
            if set(keys) & {"xlink", "insertad", "etp", "mpdcallback"} and "periods" not in keys:
                opts = opts + ["periods_60" if "mpdcallback_60" in opts else "periods_12"]
                if "insertad" in keys and "xlink" not in keys:
                    opts.append("xlink_4")
            for j, now in enumerate(NOWS):
                if len(combo) > 2 and (i // parts + j) % 3:
                    continue
                ok += one(acc, srv, lname, opts, now)
        acc.trace()
        acc.sample("layout %s: option subsets, part %d" % (lname, part))
    assert ok > 20, ok


def main():
    jobs = []
    for l in LAYOUTS:
        for part in range(6):
            jobs.append(("shard", (l, part, 6, 4 if core.thorough() and l == "full" else 3)))
    return core.run_check(PID, __name__, jobs,
                          bounds="4 VoD MPD layouts x all subsets of up to 3 of %d option groups (thorough: 4 for the fullest layout) x up to 3 instants, "
                                 "and two remote Periods of each MPD that has any" % len(GROUPS),
                          assumptions=["schema tables written from ISO/IEC 23009-1 by hand", "MPD@type static only for finished start-over sessions"])
