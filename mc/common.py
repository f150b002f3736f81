"""Helpers shared by the checks."""
from fractions import Fraction as F
from . import iso


def source_segment(asset, rep, k):
    """Parsed VoD segment k (0-based) of rep."""
    return iso.parse_joined(rep.seg_bytes(k, asset.first + k), rep.trex, rep.frags)


def frac(x):
    return float(x)


def span(lo, n):
    return list(range(lo, lo + n))


def anchors_for(asset, rep):
    """Media times (s) around which wraps and 32-bit boundaries occur."""
    out = {0, 1600000000 // asset.dur * asset.dur}
    out.add(((1 << 32) // rep.timescale) // asset.dur * asset.dur)
    out.add((1700000000 // asset.loop) * asset.loop)
    return sorted(out)


def compare_content(rep, k, track, problems, src=None):
    """Samples of the live track must be exactly the VoD samples k."""
    want = rep.segs[k][1]
    got = track.samples
    if len(got) != len(want):
        problems.append("%d samples instead of %d" % (len(got), len(want)))
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g.data != w.data:
            problems.append("sample %d bytes %r instead of %r" % (i, g.data[:40], w.data[:40]))
            break
        if g.dur != w.dur or g.cto != w.cto:
            problems.append("sample %d dur/cto %d/%d instead of %d/%d" % (i, g.dur, g.cto, w.dur, w.cto))
            break
        if g.flags != w.flags:
            problems.append("sample %d flags %x instead of %x" % (i, g.flags, w.flags))
            break
