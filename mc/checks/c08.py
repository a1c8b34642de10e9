"""Image size and capability segments decoded and range-checked"""
import itertools
from struct import pack

from .. import build as B
from .. import features as F
from .. import scale
from ..common import BYTE_EDGE, FORMATS, content_space, deviations, file_space

E32 = (0, 1, 2, 3, 4, 5, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1)


def stream(fmt, sizseg=None, extra=b'', rsiz=None, cap=True):
    ht = fmt in ('jph', 'jhc')
    if sizseg is None:
        sizseg = B.siz(rsiz=(0x4000 if ht else 0) if rsiz is None else rsiz)
    cs = B.SOC + sizseg + (B.CAP if ht and cap else b'') + extra + B.COD + B.QCD + B.tilepart() + B.EOC
    return B.wrap(cs, fmt)


def geometry(t):
    base = [8, 8, 0, 0, 8, 8, 0, 0]

    def cases():
        for v in deviations([(b,) + tuple(x for x in E32 if x != b) for b in base], 2):
            for f in FORMATS if t else ('j2c', 'jhc'):
                yield f, v
        # tile grids: number of tiles
        small = (1, 2, 3, 4, 5, 7)
        for x, xt in itertools.product(small, repeat=2):
            for xto in (0, 1, 2, 3):
                for y, yt, yto in ((4, 4, 0), (5, 2, 0), (5, 2, 1)):
                    yield 'j2c', (x, y, 0, 0, xt, yt, xto, yto)
                    yield 'jhc', (y, x, 0, 0, yt, xt, yto, xto)
    return cases


def geo(case):
    f, (x, y, xo, yo, xt, yt, xto, yto) = case
    ht = f in ('jph', 'jhc')
    return stream(f, B.siz(x=x, y=y, xo=xo, yo=yo, xt=xt, yt=yt, xto=xto, yto=yto, rsiz=0x4000 if ht else 0)), f


def rsizes(t):
    def cases():
        for f in FORMATS:
            for r in range(0, 65536, 1 if t else 1):
                if t or f == 'j2c' and (r < 0x1000 or r & 0xff in (0, 1, 7, 8, 9, 0x1f, 0xff)) or \
                        f == 'jhc' and (r & 0xff in (0, 1, 0xff) or r & 0xfff == 0) or r % 977 == 0:
                    yield f, r
    return cases


def rs(case):
    f, r = case
    return stream(f, rsiz=r), f


def comps():
    for f in FORMATS:
        for n in (0, 1, 2, 3, 4):
            for m in range(0, 6):
                yield f, n, m, 7, 1, 1
        for b in range(256):
            yield f, 1, 1, b, 1, 1
            yield f, 1, 1, 7, b, 1
            yield f, 1, 1, 7, 1, b
            yield f, 3, 3, b, b, 255 - b
        for n in (255, 256, 257, 300, 1000):
            yield f, n, n, 7, 1, 1
    for n in (16383, 16384, 16385, 17000, 65535):
        yield 'j2c', n, min(n, 16384), 7, 1, 1


def comp(case):
    f, n, m, b, x, y = case
    ht = f in ('jph', 'jhc')
    c = tuple(((b + i) & 255, (x + i) & 255, (y + i) & 255) for i in range(m)) if m < 10 else ((b, x, y),) * m
    return stream(f, B.siz(comps=c, csiz=n, rsiz=0x4000 if ht else 0)), f


def lengths():
    """Length field of SIZ against number of components."""
    for f in ('j2c', 'jhc'):
        for n in (1, 2, 3):
            for d in range(-45, 12):
                yield f, n, 38 + 3 * n + d


def leng(case):
    f, n, l = case
    ht = f in ('jph', 'jhc')
    d = B.siz_d(comps=((7, 1, 1),) * n, rsiz=0x4000 if ht else 0)
    return stream(f, B.seg(0x51, d, l)), f


def caps(t):
    def cases():
        parts = [0, 1 << 17] + [1 << i for i in range(32)] + [1 << 17 | 1 << i for i in range(32) if i != 17]
        parts += [0xffffffff, 0xaaaaaaaa, 0x55555555, 0x80020001, 0xffff0000, 0x0000ffff, 0xfffe0000, 0x0003ffff]
        for f in FORMATS:
            for p in parts:
                n = bin(p).count('1')
                for d in (-1, 0, 1):
                    yield f, p, max(n + d, 0), 0x1234, 0
                yield f, p, n, 0x8000, 1
                yield f, p, n, 0xffff, -1
        for f in ('jph', 'jhc'):
            for c in range(0, 65536, 1 if t else 7):
                yield f, 1 << 17, 1, c, 0
            for c in range(65536):
                if c & 0x7c0 == 0 and (c & 31 in (0, 1, 19, 20, 30, 31) or c >> 11 in (0, 8, 16, 24)):
                    yield f, 1 << 17 | 1 << 31 | 1 << 3, 3, c, 0
        for f in ('j2c',):
            for c in range(0, 65536, 509):
                yield f, 1 << 17, 1, c, 0
    return cases


def cap(case):
    f, p, n, c, dl = case
    before = bin(p >> 18).count('1')
    vals = [(0x1111 * (i + 1)) & 65535 for i in range(n)]
    if before < n:
        vals[before] = c
    d = pack('>I', p) + b''.join(pack('>H', v) for v in vals)
    return stream(f, extra=B.seg(0x50, d, len(d) + 2 + dl), cap=False), f


def profiles(t):
    def cases():
        e = (0, 1, 2, 255, 256, 65534, 65535)
        for f in FORMATS:
            for m in (0x56, 0x59):
                for n in range(0, 4):
                    for v in itertools.product(e if n < 3 else (0, 1, 65535), repeat=n):
                        yield f, m, v, 0
                for n in range(3):
                    for d in (-2, -1, 1, 2, 3):
                        yield f, m, (5,) * n, d
        for f in ('jp2', 'jhc'):
            for m in (0x56, 0x59):
                for v in range(0, 65536, 1 if t else 37):
                    yield f, m, (v,), 0
                for n in (10, 100, 300, 1000):
                    yield f, m, (65535,) * n, 0
                    yield f, m, (65535,) * n + (0,), 0
                    yield f, m, (0,) * n + (1,), 0
    return cases


def prof(case):
    f, m, v, dl = case
    d = b''.join(pack('>H', x) for x in v)
    return stream(f, extra=B.seg(m, d, len(d) + 2 + dl)), f


def spaces(tier):
    t = tier == 'thorough'

    def place_siz(p, fmt, b):
        return stream(fmt, b'\xff\x51' + p)

    def place_seg(m):
        def f(p, fmt, b):
            return stream(fmt, extra=bytes((255, m)) + p, cap=m != 0x50)
        return f
    return [
        file_space('geometry', 'up to two of eight geometry fields over edge values; small tile grids', geometry(t), geo),
        file_space('rsiz', 'capability values (%s)' % ('all 65536 in all formats' if t else 'all below 4096, edge bytes '
                   'of the others'), rsizes(t), rs),
        file_space('components', 'component counts, all values of depth and sub-sampling bytes', comps, comp),
        file_space('lengths', 'length field against component count', lengths, leng),
        content_space('SIZ bytes', 'every cut and byte value incl. length field',
                      [B.siz(rsiz=1, x=0x01020304, y=0x05060708, xo=1, yo=2, xt=0x01020304, yt=0x05060708,
                             comps=((7, 1, 1), (135, 2, 2)))[2:]],
                      place_siz, FORMATS if t else ('j2c', 'jhc'), heavy={36: (0, 1, 64, 255) if not t else range(0, 256, 5)},
                      single=range(256)),
        file_space('CAP', 'parts x lengths, capability words%s' % (' (all)' if t else ''), caps(t), cap),
        content_space('CAP bytes', 'every cut and byte value', [B.CAP[2:]], place_seg(0x50), FORMATS,
                      pairs=(0, 1, 2, 128, 255)),
        file_space('PRF and CPF', 'all short lists over edge values, long lists', profiles(t), prof),
        content_space('PRF bytes', 'every cut and byte value', [B.seg(0x56, b'\0\1\0\2')[2:]], place_seg(0x56),
                      FORMATS if t else ('j2c', 'jhc'), heavy={0: (0, 1, 2, 16)}),
        content_space('CPF bytes', 'every cut and byte value', [B.seg(0x59, b'\0\1\0\2')[2:]], place_seg(0x59),
                      FORMATS if t else ('j2c', 'jhc'), heavy={0: (0, 1, 2, 16)}),
        scale.size_segments(t),
        F.space('features', ('fmt',) + F.SIZE + ('cap', 'prf', 'cpf', 'crg', 'munk'), 4 if t else 3),
    ], ['number of components is swept up to 65535 at selected values only']
