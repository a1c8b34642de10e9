"""Header box fields are decoded exactly and range-checked"""
import itertools
from struct import pack

from .. import build as B
from .. import features as F
from .. import scale
from ..common import BYTE_EDGE, content_space, file_space

FMT = ('jp2', 'jph')
H = B.ihdr() + B.colr()
E16 = (0, 1, 2, 3, 4, 254, 255, 256, 257, 258, 16383, 16384, 16385, 32767, 32768, 65534, 65535)
E32 = (0, 1, 2, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1)


def place(typ, pre=b'', post=b''):
    def f(p, fmt, b):
        bx = B.box(typ, p)
        if typ == b'ihdr':
            return B.jp2(fmt, hdr=bx + B.colr() + post)
        if typ in (b'resc', b'resd'):
            return B.jp2(fmt, hdr=H + B.res(bx))
        return B.jp2(fmt, hdr=H + pre + bx + post)
    return f


def fmts(it):
    def cases():
        for c in it():
            for f in FMT:
                yield f, c
    return cases


def ihdr_fields():
    d = dict(h=E32, w=E32, nc=E16, bpc=BYTE_EDGE, c=(0, 6, 7, 8, 255), unk=(0, 1, 2, 128, 255),
             ipr=(0, 1, 2, 128, 255))
    base = dict(h=4, w=4, nc=1, bpc=7, c=7, unk=0, ipr=0)
    for a, b in itertools.combinations(d, 2):
        for x in d[a]:
            for y in d[b]:
                yield {**base, a: x, b: y}


def bpcc_fields(t):
    def cases():
        for n in range(0, 4 if t else 3):
            yield from itertools.product(BYTE_EDGE, repeat=n)
        for v in range(256):
            yield (v,)
            yield (7, v)
            yield (v, 7, v)
        for n in (255, 256, 257, 400):
            for p in (0, n // 2, n - 1):
                for v in (0, 37, 38, 127, 128, 165, 166, 255):
                    yield tuple(v if i == p else 7 for i in range(n))
    return cases


def palette(t):
    def cases():
        depths = (0, 1, 6, 7, 8, 15, 16, 23, 24, 31, 32, 36, 37, 38, 39, 126, 127, 128, 135, 136, 143, 144,
                  165, 166, 255)
        for ne in (1, 2, 3, 5):
            for d in depths:
                yield ne, (d,), None
            for d in itertools.product(depths if t else (0, 7, 8, 15, 135, 37, 39), repeat=2):
                yield ne, d, None
        for d in itertools.product((7, 8, 16, 136), repeat=3):
            yield 2, d, None
        for ne in (0, 1, 2, 255, 256, 1023, 1024, 1025, 1026, 65535):
            yield ne, (7,), None
            yield ne, (7, 9), 3            # fewer entries stored than announced
        for n in (0, 1, 2, 3, 4, 16, 254, 255):
            yield 2, (7,) * n, None
            yield 1, (7, 11)[:1] * n, 0
        for ne, d in ((2, (7,)), (3, (7, 15)), (2, (11, 3, 20)), (2, (0, 38))):
            for cut in range(0, 40):
                yield ne, d, -1 - cut
        for ne in range(1, 5):
            for d in ((7,), (7, 15)):
                for extra in range(1, 4):
                    yield ne, d, 1000 + extra
    return cases


def pal_payload(c):
    ne, depths, mod = c
    stored = ne if mod is None or mod < 0 or mod >= 1000 else min(mod, ne)
    rows, v = [], 1
    for _ in range(stored):
        row = []
        for b in depths:
            n = ((b & 127) + 8) // 8
            v = v * 5 + 3
            row.append((v * 0x9e3779b97f4a7c15 + v) % (1 << (8 * n)))
        rows.append(row)
    p = bytearray(B.pclr_d(depths, rows))
    p[0:2] = pack('>H', ne)
    p = bytes(p)
    if mod is not None and mod < 0:
        p = p[:max(0, len(p) + mod + 1)]
    elif mod is not None and mod >= 1000:
        p += b'\xee' * (mod - 1000)
    return p


def cmap_fields(t):
    def cases():
        e = E16
        ty = (0, 1, 2, 3, 128, 255)
        co = (0, 1, 2, 127, 128, 255)
        for a in itertools.product(e, ty, co):
            yield (a,)
        few = ((0, 0, 0), (1, 1, 1), (0, 0, 1), (16384, 1, 0), (16385, 2, 255), (0, 1, 2))
        for n in (2, 3) if t else (2,):
            yield from itertools.product(few, repeat=n)
        yield ()
        yield ((0, 1, 1),) * 300
    return cases


def cdef_fields(t):
    def cases():
        typ = (0, 1, 2, 3, 4, 255, 256, 32768, 65534, 65535)
        for a in itertools.product(E16, typ, (0, 1, 2, 65534, 65535, 256)):
            yield (a,), None
        few = [(n, y, s) for n in (0, 1) for y in (0, 1, 2, 3, 65535) for s in (0, 1, 65535)]
        for a in itertools.product(few, repeat=2):
            yield a, None
        small = ((0, 0, 1), (1, 1, 0), (1, 2, 0), (2, 1, 1), (3, 65535, 65535), (4, 3, 0))
        for n in (3, 4) if t else (3,):
            for a in itertools.product(small, repeat=n):
                yield a, None
        for n in (0, 1, 2, 3, 4, 255, 256, 65535):          # announced number differs from stored one
            for m in range(4):
                yield small[:m], n
    return cases


def cdef_payload(c):
    ch, n = c
    p = B.cdef_d(*ch)
    return p if n is None else pack('>H', n) + p[2:]


def res_fields(t):
    def cases():
        e = (0, 1, 2, 3, 7, 100, 254, 255, 256, 32767, 32768, 65535)
        for n in e:
            for d in e:
                yield n, d, 300, 1, 0, 0
                yield 300, 1, n, d, 0, 0
        for x in range(-128, 128):
            for n, d in ((1, 1), (300, 1), (65535, 1), (1, 65535), (7, 3)) if t else ((300, 1), (7, 3)):
                yield n, d, 300, 1, x, 0
                yield 300, 1, n, d, 0, x
                yield n, d, d, n, x, -x - 1
        for n in range(0, 65536, 1 if t else 251):
            yield n, 100, 300, 7, 2, 2
            yield 23600, max(n, 1), n, 254, 1, 0
    return cases


def boxfile(typ, payload):
    pl = place(typ)

    def build(case):
        fmt, c = case
        return pl(payload(c), fmt, 0), fmt
    return build


def spaces(tier):
    t = tier == 'thorough'
    pv = BYTE_EDGE if t else (0, 1, 128, 255)
    res0 = B.res_d(0x1234, 0x0156, 0x4321, 0x0265, 3, -2)
    return [
        content_space('image header bytes', 'every length, every byte value, pairs of edge values', [B.ihdr_d()],
                      place(b'ihdr'), FMT, pairs=pv),
        file_space('image header fields', 'pairs of fields over edge values', fmts(ihdr_fields),
                   boxfile(b'ihdr', lambda kw: B.ihdr_d(**kw))),
        file_space('bits per component', 'all short lists over edge values, all values, long lists',
                   fmts(bpcc_fields(t)), boxfile(b'bpcc', bytes)),
        file_space('palette', 'entries x columns x depths, short and long tables', fmts(palette(t)),
                   boxfile(b'pclr', pal_payload)),
        content_space('palette bytes', 'every length and byte value', [B.pclr_d((7, 137), ((1, 300), (2, 700)))],
                      place(b'pclr'), FMT),
        file_space('component mapping', 'all short tables over edge values', fmts(cmap_fields(t)),
                   boxfile(b'cmap', lambda c: b''.join(pack('>HBB', *x) for x in c))),
        content_space('component mapping bytes', 'every length and byte value', [B.cmap_d((0, 0, 0), (1, 1, 1))],
                      place(b'cmap'), FMT, pairs=pv),
        file_space('channel definition', 'all short tables over edge values', fmts(cdef_fields(t)),
                   boxfile(b'cdef', cdef_payload)),
        content_space('channel definition bytes', 'every length and byte value',
                      [B.cdef_d((0, 0, 1), (1, 1, 0))], place(b'cdef'), FMT, pairs=pv if t else (),
                      heavy=None if t else {0: (0, 1, 2, 128, 255)}),
        file_space('capture resolution', 'numerators, denominators and all exponents', fmts(res_fields(t)),
                   boxfile(b'resc', lambda c: B.res_d(*c))),
        file_space('display resolution', 'numerators, denominators and all exponents', fmts(res_fields(t)),
                   boxfile(b'resd', lambda c: B.res_d(*c))),
        content_space('capture resolution bytes', 'every length and byte value', [res0], place(b'resc'), FMT,
                      pairs=pv if t else ()),
        content_space('display resolution bytes', 'every length and byte value', [res0], place(b'resd'), FMT,
                      pairs=pv if t else ()),
        scale.tables(t),
        F.space('features', ('fmt', 'comps') + F.HEADER, 3) if t else
        F.space('features', tuple(d for d in ('fmt', 'comps') + F.HEADER if d not in ('colr', 'gap', 'hunk')), 3),
    ], ['one swept box per file; pairs of fields beyond the listed edge values are not combined',
        'derived resolutions are compared after rounding to two decimals']
