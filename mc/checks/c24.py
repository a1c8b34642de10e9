"""Packet lengths are decoded exactly"""
import itertools

from .. import build as B
from .. import features as F
from .. import scale
from .. import impl, spec
from ..common import FORMATS, FnSpace, content_cases, content, judge
from ..engine import Space

EDGE = (0x00, 0x01, 0x7f, 0x80, 0x81, 0xff)
WIDE = tuple(sorted({0, 1, 2, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xbf, 0xc0, 0xfe, 0xff}))
HT = ('jph', 'jhc')


def stream(fmt, main=b'', tile=b'', ntiles=1):
    ht = fmt in HT
    base = (B.CAP + B.HTCOD if ht else B.COD) + B.QCD
    if ntiles == 1:
        return B.wrap(B.codestream(ht=ht, main=base + main, tiles=B.tilepart(segs=tile)), fmt)
    return B.wrap(B.codestream(ht=ht, main=base + main, tiles=b''.join(B.tilepart(i, segs=tile) for i in range(ntiles)),
                               x=4, y=4, xt=4 // ntiles, yt=4), fmt)


def plm(lengths, z=0, n=None):
    return B.seg(0x57, bytes((z, len(lengths) & 255 if n is None else n)) + lengths)


def plt(lengths, z=0):
    return B.seg(0x58, bytes((z,)) + lengths)


def four(R, fmt, main=b'', tile=b'', ntiles=1, verbose=True):
    d = stream(fmt, main, tile, ntiles)
    judge(R, d, fmt, verbose, packetmarkers=True)
    judge(R, d, fmt, not verbose, packetmarkers=False)


def strings(depth, alphabet, wide_depth):
    def cases():
        for n in range(0, depth + 1):
            for s in itertools.product(alphabet, repeat=n):
                yield 'plm', bytes(s)
                yield 'plt', bytes(s)
        for n in range(1, wide_depth + 1):
            for s in itertools.product(WIDE, repeat=n):
                yield 'plm', bytes(s)
                yield 'plt', bytes(s)
        for a in range(256):
            for pre in (b'', b'\x80', b'\x81', b'\xff\xff', b'\x05'):
                for post in (b'', b'\x00', b'\x7f', b'\x80\x01'):
                    yield 'plm', pre + bytes((a,)) + post
                    yield 'plt', pre + bytes((a,)) + post
    return cases


def strings_run(case, R):
    kind, s = case
    fmt = FORMATS[(len(s) + sum(s)) % 4]
    if kind == 'plm':
        four(R, fmt, plm(s))
    else:
        four(R, fmt, b'', plt(s))


def pairs_cases():
    for a, b in itertools.product(range(256), repeat=2):
        yield 'plt', bytes((a, b))


def long_cases():
    for c in range(0, 12):                      # continuation bytes of one number
        for first in (0x80, 0x81, 0xff, 0xc0):
            for last in (0, 1, 0x7f, 0x40):
                for after in (b'', b'\x03', b'\x81\x00'):
                    yield bytes((first,)) * c + bytes((last,)) + after
    for n in (100, 127, 128, 200, 250, 255, 256, 1000, 5000, 65000):
        yield b'\x01' * n
        yield b'\x81\x02' * (n // 2)
        yield b'\xff' * min(n, 2000) + b'\x00'
        yield b'\xff' * min(n, 2000)


def long_run(s, R):
    for fmt in ('j2c', 'jhc'):
        four(R, fmt, b'', plt(s))
        if len(s) < 256:
            four(R, fmt, plm(s))


def arrange(t):
    """Sequences of segments in main header and tile-part."""
    segs = {'L': plm(b'\x05\x81\x00', 0), 'M': plm(b'\x06', 1), 'l': plt(b'\x07\x90\x01', 0), 'm': plt(b'', 2),
            'P': B.PPM, 'p': B.PPT, 'c': B.COM, 'u': B.UNK}
    depth = 4 if t else 3

    def cases():
        for n in range(depth + 1):
            for s in itertools.product('LMPc', repeat=n):
                for r in ('', 'l', 'pl'):
                    yield ''.join(s), r
            for s in itertools.product('lmpu', repeat=n):
                for r in ('', 'L', 'PL'):
                    yield r, ''.join(s)
        for a in 'LMlmPpcu':                     # segments in the wrong kind of header are skipped
            for b in 'LMlmPpcu':
                yield a + b, a + b
    def run(case, R):
        a, b = case
        main, tile = (b''.join(segs[x] for x in y) for y in (a, b))
        for fmt in FORMATS:
            for n in (1, 2):
                four(R, fmt, main, tile, n, verbose=n == 1)
    return FnSpace('arrangement', 'sequences of up to %d PLM, PPM, PLT, PPT and other segments in main header and tile-parts, 4 formats'
                   % depth, cases, run)


def bytes_space(t):
    bases = [('m', b'\x00\x03\x05\x81\x02'), ('m', b'\x09\x00'), ('t', b'\x00\x05\x81\x02'), ('t', b'\x07'), ('M', b'\x00\x00\x00\x02ab'),
             ('T', b'\x00ab')]

    def cases():
        for b, ch in content_cases([x for _, x in bases], pairs=(0, 1, 2, 127, 128, 255)):
            yield b, ch

    def run(case, R):
        b, ch = case
        kind, p = bases[b][0], content(bases[b][1], ch)
        s = B.seg({'m': 0x57, 't': 0x58, 'M': 0x60, 'T': 0x61}[kind], p)
        for fmt in ('jp2', 'jhc'):
            if kind in 'mM':
                four(R, fmt, s)
            else:
                four(R, fmt, b'', s)
    return FnSpace('bytes', 'every byte of PLM, PLT, PPM and PPT segments set to every value, pairs to edge values, every length', cases, run)


def lengths_space(t):
    """Announced segment length differs from the stored contents."""
    def cases():
        for kind in (0x57, 0x58, 0x60, 0x61):
            for s in (b'', b'\x05', b'\x81\x02\x03', b'\x81', b'\x00\x02\x05\x81\x02\xff\x93'):
                for ln in tuple(range(0, 24)) + (127, 255, 256, 65534, 65535):
                    yield kind, s, ln

    def run(case, R):
        kind, s, ln = case
        sg = B.seg(kind, s, ln)
        for fmt in ('jp2', 'jhc'):
            four(R, fmt, *((sg, b'') if kind in (0x57, 0x60) else (b'', sg)))
    return FnSpace('announced length', 'segment length fields 0 to 23 and extremes against 5 contents', cases, run)


class Series(Space):
    """More than one series of lengths in a PLM segment (known finding)."""
    name = 'several series'
    rule = 'PLM segment with two series of packet lengths: counts of later series are not packet lengths'

    def cases(self):
        yield b'\x02\x05\x06\x01\x07'

    def run(self, body, R):
        d = stream('j2c', B.seg(0x57, b'\0' + body))
        R.file('input.j2c', d)
        rep = impl.analyse(d, 'j2c', True, True)
        R.execs += 1
        R.state(d)
        R.outcome(rep.key())
        got = [int(x, 16) for e in rep.properties.iter('iplm') for x in (e.text or '').split(',') if x]
        if got != [5, 6, 7]:
            R.fail('packet lengths reported as %s, stored are [5, 6, 7]' % got)

    def known(self, body):
        return 'plm-series'


def feature_run(dev, R):
    d, f, opts = F.build(dev, (('packets', True),))
    judge(R, d, f, **opts)


def spaces(tier):
    t = tier == 'thorough'
    out = [
        FnSpace('strings', 'all byte strings up to length %d over %s and up to length %d over %d values as packet lengths in PLM and PLT' % (
            7 if t else 5, ['%02x' % x for x in EDGE], 4 if t else 2, len(WIDE)), strings(7 if t else 5, EDGE, 4 if t else 2), strings_run),
        FnSpace('long', 'up to 11 continuation bytes, lists up to the maximum length', long_cases, long_run),
        arrange(t), bytes_space(t), lengths_space(t), Series(),
    ]
    if t:
        out.append(FnSpace('pairs', 'all 65536 pairs of bytes in PLT', pairs_cases, strings_run))
    out.append(scale.packets(t))
    out.append(FnSpace('features', 'packet lengths of files that combine at most 3 features', lambda: F.vectors(
        ('fmt', 'verbose', 'plm', 'ppm', 'plt', 'ppt', 'where', 'parts', 'grid', 'order', 'munk', 'tunk', 'tcom', 'cenc', 'comps'), 4 if t else 3), feature_run))
    return out, ['PLM segments with more than one series of lengths: see known finding plm-series; otherwise not specified']
