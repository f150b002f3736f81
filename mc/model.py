"""Reference model of the live service (written from the documentation, not from the code).

A session is described by URL options; the model answers, for a wall-clock instant and a segment
number, whether the segment is available and what it has to contain. All arithmetic is exact.
"""
from fractions import Fraction as F


class Opts:
    """URL options and their documented meaning."""

    def __init__(self, start=None, snr=None, ato=None, tsbd=None, timeoffset=None, stop=None, durs=(), mup=None,
                 extra=(), init=None, key="start"):
        self.start, self.snr, self.ato, self.tsbd = start, snr, ato, tsbd
        self.timeoffset, self.stop, self.durs, self.mup, self.init = timeoffset, stop, tuple(durs), mup, init
        self.extra = tuple(extra)
        self.key = key

    def parts(self):
        p = []
        if self.start is not None:
            p.append("%s_%d" % (self.key, self.start))
        if self.stop is not None:
            p.append("stop_%d" % self.stop)
        for d in self.durs:
            p.append("dur_%d" % d)
        if self.timeoffset is not None:
            p.append("timeoffset_%d" % self.timeoffset)
        if self.snr is not None:
            p.append("snr_%d" % self.snr)
        if self.ato is not None:
            p.append("ato_%s" % ("inf" if self.ato == "inf" else ("%g" % float(self.ato))))
        if self.tsbd is not None:
            p.append("tsbd_%d" % self.tsbd)
        if self.mup is not None:
            p.append("mup_%d" % self.mup)
        if self.init is not None:
            p.append("init_%d" % self.init)
        p.extend(self.extra)
        return p

    def prefix(self):
        p = self.parts()
        return "/".join(p) + ("/" if p else "")

    def __repr__(self):
        return "Opts(%s)" % self.prefix()


class Model:
    """Model of one session over one asset."""

    def __init__(self, asset, o):
        self.a, self.o = asset, o
        d = asset.dur
        self.d = d
        self.ast = (o.start // d) * d if o.start is not None else 0
        self.base_nr = 1 if o.snr == -1 else (o.snr or 0)
        # media time (seconds) presented at availabilityStartTime
        self.media0 = (self.ast - o.timeoffset) if o.timeoffset is not None else 0
        self.first = self.base_nr + (self.media0 // d if o.timeoffset is not None else 0)
        self.tsbd = o.tsbd if o.tsbd is not None else asset.tsbd
        self.inf = o.ato == "inf"
        self.ato = F(0) if (o.ato is None or self.inf) else max(F(str(o.ato)), F(0))
        self.stop = None
        self.last = None
        self.aet = None
        if o.stop is not None:
            self.stop = -((-o.stop) // d) * d        # up to a whole segment
            self.last = self.first + (self.stop - self.ast) // d - 1
        if o.durs:
            end = ((o.start + sum(o.durs)) // d) * d
            self.last = self.first + (end - self.ast) // d - 1

    # -- time
    def avail_from(self, n):
        return F(self.ast + (n - self.first + 1) * self.d) - self.ato

    def avail_until(self, n):
        return F(self.ast + (n - self.first + 1) * self.d + self.d + self.tsbd)

    def available(self, n, now):
        """True/False: is media segment n served at instant now."""
        now = F(now)
        if n < self.first:
            return False
        if self.last is not None and n > self.last:
            return False
        if self.inf:
            return now >= self.ast
        if now < self.avail_from(n):
            return False
        if self.stop is None and now > self.avail_until(n):
            return False
        return True

    # -- content
    def media_time(self, n):
        return self.media0 + (n - self.first) * self.d

    def content(self, n):
        """(loops done, index in loop)."""
        loops, rest = divmod(self.media_time(n), self.a.loop)
        return loops, rest // self.d

    def expect(self, rep, n):
        """(decode time, samples) of live segment n of rep."""
        loops, k = self.content(n)
        start, samples = rep.segs[k]
        return start + loops * self.a.loop * rep.timescale, samples

    def live_nr(self, now):
        """Newest complete segment at now (ignoring ato)."""
        return self.first + int((F(now) - self.ast) // self.d) - 1


def same_samples(a, b):
    return [s.key() for s in a] == [s.key() for s in b]
