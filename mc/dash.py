"""An independent DASH client model: MPD parsing and segment/availability derivation."""
import re
import calendar
import time
from fractions import Fraction as F
from urllib.parse import urljoin
from xml.etree import ElementTree as ET

NS = "{urn:mpeg:dash:schema:mpd:2011}"
XLINK = "{http://www.w3.org/1999/xlink}"


class MpdError(ValueError):
    """The MPD cannot be interpreted by a conformant client."""


_DUR = re.compile(r"^P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?)S)?)?$")
_TS = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z)?$")


def duration(s):
    m = _DUR.match(s or "")
    if not m or s.endswith("T") or s == "P":
        raise MpdError("bad xs:duration %r" % s)
    y, mo, d, h, mi, se = m.groups()
    return (F(int(y or 0) * 365 * 86400 + int(mo or 0) * 30 * 86400 + int(d or 0) * 86400 + int(h or 0) * 3600 +
              int(mi or 0) * 60) + F(se or 0))


def timestamp(s):
    m = _TS.match(s or "")
    if not m:
        raise MpdError("bad xs:dateTime %r" % s)
    y, mo, d, h, mi, se = (int(x) for x in m.groups()[:6])
    if not (1 <= mo <= 12 and 1 <= d <= 31 and h < 24 and mi < 60 and se < 60):
        raise MpdError("bad xs:dateTime %r" % s)
    return F(calendar.timegm((y, mo, d, h, mi, se))) + F(m.group(7) or 0)


def integer(s, lo=0):
    if not re.match(r"^-?\d+$", s or ""):
        raise MpdError("bad integer %r" % s)
    v = int(s)
    if v < lo:
        raise MpdError("integer %d < %d" % (v, lo))
    return v


class Seg:
    __slots__ = ("number", "t", "d", "timescale", "url", "rep", "avail", "end", "pstart", "pto", "period", "path", "time_name", "pend")

    def __repr__(self):
        return "Seg(%s n=%s t=%s d=%s/%s avail=%s)" % (self.url, self.number, self.t, self.d, self.timescale, self.avail)


class Mpd:
    """Parsed MPD."""

    def __init__(self, xml, url):
        try:
            self.root = ET.fromstring(xml)
        except ET.ParseError as e:
            raise MpdError("not well-formed XML: %s" % e)
        if self.root.tag != NS + "MPD":
            raise MpdError("root element %s" % self.root.tag)
        self.url = url
        a = self.root.attrib
        self.attrib = a
        self.type = a.get("type", "static")
        self.ast = timestamp(a["availabilityStartTime"]) if "availabilityStartTime" in a else None
        self.aet = timestamp(a["availabilityEndTime"]) if "availabilityEndTime" in a else None
        self.pub = timestamp(a["publishTime"]) if "publishTime" in a else None
        self.mup = duration(a["minimumUpdatePeriod"]) if "minimumUpdatePeriod" in a else None
        self.tsbd = duration(a["timeShiftBufferDepth"]) if "timeShiftBufferDepth" in a else None
        self.mpdur = duration(a["mediaPresentationDuration"]) if "mediaPresentationDuration" in a else None
        self.spd = duration(a["suggestedPresentationDelay"]) if "suggestedPresentationDelay" in a else None
        self.maxseg = duration(a["maxSegmentDuration"]) if "maxSegmentDuration" in a else None
        if self.type == "dynamic":
            if self.ast is None or self.pub is None:
                raise MpdError("dynamic MPD lacks availabilityStartTime or publishTime")
        elif self.type != "static":
            raise MpdError("MPD@type %r" % self.type)
        order = ["ProgramInformation", "BaseURL", "Location", "PatchLocation", "ServiceDescription",
                 "InitializationSet", "Period", "UTCTiming", "Metrics"]
        # DASH-IF order used by the simulator: children grouped; Period after BaseURL/Location, UTCTiming after Period
        tags = [c.tag.replace(NS, "") for c in self.root]
        try:
            pos = [order.index(t) for t in tags]
        except ValueError:
            raise MpdError("unknown MPD child in %s" % tags)
        if pos != sorted(pos):
            raise MpdError("MPD children out of schema order: %s" % tags)
        self.locations = [(e.text or "").strip() for e in self.root.findall(NS + "Location")]
        self.baseurls = [e for e in self.root.findall(NS + "BaseURL")]
        self.periods = [Period(self, e) for e in self.root.findall(NS + "Period")]
        if not self.periods:
            raise MpdError("no Period")
        self.utc = [(e.get("schemeIdUri"), e.get("value")) for e in self.root.findall(NS + "UTCTiming")]
        prev = None
        for p in self.periods:
            if p.xlink:
                prev = None
                continue
            if p.start is None:
                if prev is None:
                    p.start = F(0) if p is self.periods[0] else None
                elif prev.duration is not None:
                    p.start = prev.start + prev.duration
                if p.start is None:
                    raise MpdError("Period start cannot be derived")
            prev = p
        ps = self.periods
        for i, p in enumerate(ps):
            if p.xlink:
                continue
            p.end = None
            nxt = ps[i + 1] if i + 1 < len(ps) else None
            if nxt is not None and not nxt.xlink:
                p.end = nxt.start
                if nxt.start <= p.start:
                    raise MpdError("Period starts not increasing: %s %s" % (p.start, nxt.start))
            if p.duration is not None:
                e = p.start + p.duration
                if p.end is not None and e > p.end:
                    raise MpdError("Period %s duration overlaps the next Period" % p.id)
                p.end = e if p.end is None else min(e, p.end)
            if nxt is None and self.mpdur is not None:
                p.end = self.mpdur if p.end is None else min(p.end, self.mpdur)
        ids = [p.id for p in ps if not p.xlink]
        if len(set(ids)) != len(ids):
            raise MpdError("duplicate Period ids %s" % ids)

    def base(self, which=0):
        if self.baseurls:
            return urljoin(self.url, (self.baseurls[which].text or "").strip())
        return self.url

    def ato(self, which=0):
        if self.baseurls:
            v = self.baseurls[which].get("availabilityTimeOffset")
            if v is not None:
                return None if v == "INF" else F(v)
        return F(0)


class Period:
    def __init__(self, mpd, e):
        self.mpd, self.e = mpd, e
        self.id = e.get("id")
        self.xlink = e.get(XLINK + "href")
        self.start = duration(e.get("start")) if e.get("start") else None
        self.duration = duration(e.get("duration")) if e.get("duration") else None
        self.end = None
        sb = e.find(NS + "SegmentBase")
        self.sb_pto = integer(sb.get("presentationTimeOffset", "0")) if sb is not None else None
        self.sets = [AdSet(self, x) for x in e.findall(NS + "AdaptationSet")]
        self.event_streams = e.findall(NS + "EventStream")
        self.asset_ids = e.findall(NS + "AssetIdentifier")


class AdSet:
    def __init__(self, period, e):
        self.period, self.e = period, e
        self.ctype = e.get("contentType")
        self.reps = [r.get("id") for r in e.findall(NS + "Representation")]
        st = e.findall(NS + "SegmentTemplate")
        if len(st) != 1:
            raise MpdError("AdaptationSet with %d SegmentTemplate" % len(st))
        st = st[0]
        self.st = st
        self.timescale = integer(st.get("timescale", "1"), 1)
        self.duration = integer(st.get("duration"), 1) if st.get("duration") else None
        self.has_snr = "startNumber" in st.attrib
        self.snr = integer(st.get("startNumber", "1"))
        pto = st.get("presentationTimeOffset")
        self.pto = integer(pto) if pto is not None else (period.sb_pto or 0)
        self.media, self.init = st.get("media"), st.get("initialization")
        self.inband = [(x.get("schemeIdUri"), x.get("value")) for x in e.findall(NS + "InbandEventStream")]
        self.supp = [(x.get("schemeIdUri"), x.get("value")) for x in e.findall(NS + "SupplementalProperty")]
        self.st_ato = st.get("availabilityTimeOffset")
        self.st_atc = st.get("availabilityTimeComplete")
        self.prt = e.findall(NS + "ProducerReferenceTime")
        tl = st.find(NS + "SegmentTimeline")
        self.timeline = None
        if tl is not None:
            if self.duration is not None:
                raise MpdError("both @duration and SegmentTimeline")
            self.timeline = []
            t = None
            for s in tl.findall(NS + "S"):
                d = integer(s.get("d"), 1)
                r = integer(s.get("r", "0"))
                if s.get("t") is not None:
                    nt = integer(s.get("t"))
                    if t is not None and abs(nt - t) * 10 > self.timescale:     # the media may be up to 100 ms from the loop duration
                        raise MpdError("SegmentTimeline gap/overlap: S@t=%d expected %d" % (nt, t))
                    t = nt
                elif t is None:
                    t = 0
                for _ in range(r + 1):
                    self.timeline.append((t, d))
                    t += d
        elif self.duration is None:
            raise MpdError("neither @duration nor SegmentTimeline")

    def total_ato(self):
        b = self.period.mpd.ato()
        if b is None:
            return None
        if self.st_ato is not None:
            if self.st_ato == "INF":
                return None
            b = b + F(self.st_ato)
        return b

    def fill(self, template, rep, number=None, t=None):
        out = template.replace("$RepresentationID$", rep)
        if number is not None:
            out = out.replace("$Number$", str(number))
        if t is not None:
            out = out.replace("$Time$", str(t))
        if "$" in out:
            raise MpdError("unresolved template %r" % out)
        return out

    def _mk(self, rep, number, t, d, base):
        p = self.period
        s = Seg()
        s.rep, s.number, s.t, s.d, s.timescale = rep, number, t, d, self.timescale
        s.pto, s.period, s.pstart = self.pto, p, p.start
        s.path = self.fill(self.media, rep, number, t)
        s.url = urljoin(base, s.path)
        end = p.start + F(t + d - self.pto, self.timescale)
        ato = self.total_ato()
        s.end = p.mpd.ast + end if p.mpd.ast is not None else end
        s.avail = None if ato is None else s.end - ato
        return s

    def number_segs(self, rep, lo_i, hi_i, base=None):
        """Segments with period index in [lo_i, hi_i] (clipped to the Period)."""
        base = base or self.period.mpd.base()
        out = []
        for i in range(max(lo_i, 0), hi_i + 1):
            if self.period.end is not None and self.period.start + F(i * self.duration, self.timescale) >= self.period.end:
                break
            out.append(self._mk(rep, self.snr + i, self.pto + i * self.duration, self.duration, base))
        return out

    def index_at(self, rel):
        """Largest index whose segment ends at or before period-relative time rel."""
        return int((F(rel) * self.timescale / self.duration).__floor__()) - 1

    def listed(self, rep, base=None):
        base = base or self.period.mpd.base()
        return [self._mk(rep, self.snr + i, t, d, base) for i, (t, d) in enumerate(self.timeline)]

    def available(self, rep, now, tsbd=None, base=None, guard=0):
        """Segments available to a client at wall clock `now` (within the time-shift buffer)."""
        m = self.period.mpd
        if self.timeline is not None:
            segs = self.listed(rep, base)
        else:
            ato = self.total_ato()
            rel = F(now) - m.ast - self.period.start
            if ato is None:
                raise MpdError("INF")
            hi = self.index_at(rel + ato)
            depth = tsbd if tsbd is not None else (m.tsbd if m.tsbd is not None else None)
            lo = 0 if depth is None else max(0, self.index_at(rel - depth) + 1)
            segs = self.number_segs(rep, lo, hi, base)
        return segs
