"""Coding and quantization segment fields decoded and range-checked"""
import itertools
from struct import pack

from .. import build as B
from .. import features as F
from .. import scale
from ..common import BYTE_EDGE, FORMATS, content_space, deviations, file_space

HT = ('jph', 'jhc')
LEV = (0, 1, 2, 5, 31, 32, 33, 34, 127, 128, 255)


def stream(fmt, segs, n=1, tile=False):
    """Codestream with a coding and a quantization default and the segments under test."""
    ht = fmt in HT
    main = (B.CAP if ht else b'') + B.COD + B.QCD + (b'' if tile else segs)
    cs = B.codestream(ht=ht, comps=((7, 1, 1),) * n, main=main,
                      tiles=B.tilepart(segs=segs) if tile else B.tilepart())
    return B.wrap(cs, fmt)


def fields(domains, k, mk, formats=('jp2', 'jhc')):
    """All value vectors within k deviations; mk(vector) -> segment contents, marker, component count."""
    def cases():
        for v in deviations(domains, k):
            for f in formats:
                yield f, v

    def build(case):
        f, v = case
        marker, data, length, n = mk(v)
        return stream(f, B.seg(marker, data, length), n), f
    return cases, build


def cod(v):
    s, order, layers, mct, levels, cbw, cbh, style, tr, extra = v
    n = (levels + 1 if s & 1 else 0) + extra
    prec = bytes((i * 37 + 0x53) & 255 for i in range(max(n, 0)))
    return 0x52, B.cod_d(s, order, layers, mct, levels, cbw, cbh, style, tr, prec), None, 1


def coc(v):
    n, comp, s, levels, cbw, cbh, style, tr, extra = v
    k = (levels + 1 if s & 1 else 0) + extra
    prec = bytes((i * 41 + 0x35) & 255 for i in range(max(k, 0)))
    wide = n > 256
    return 0x53, B.coc_d(comp if wide else comp & 255, wide, s, levels, cbw, cbh, style, tr, prec), None, n


def steps(style, levels, extra):
    n = (3 * levels + 1 if style == 0 else 2 if style == 1 else 2 * (3 * levels + 1)) + extra
    return bytes((i * 73 + 0x9d) & 255 for i in range(max(n, 0)))


def qcd(v):
    style, guard, levels, extra = v
    return 0x5c, bytes((guard << 5 | style,)) + steps(style, levels, extra), None, 1


def qcc(v):
    n, comp, style, guard, levels, extra = v
    wide = n > 256
    return 0x5d, pack('>H' if wide else '>B', comp if wide else comp & 255) + \
        bytes((guard << 5 | style,)) + steps(style, levels, extra), None, n


def rgn(v):
    n, comp, style, shift, length = v
    wide = n > 256
    return 0x5e, B.rgn_d(comp if wide else comp & 255, wide, style, shift), length, n


def poc(v):
    n, reps, rs, cs, ly, re_, ce, order, extra = v
    wide = n > 256
    if not wide:
        cs, ce = cs & 255, ce & 255
    recs = [(rs, cs, ly, re_, ce, order)] + [(i % 34, i % 256, i + 1, (i + 1) % 40, (i + 2) % 256, i % 6)
                                            for i in range(reps - 1)]
    d = B.poc_d(*recs, wide=wide)
    if reps == 0:
        d = b''
    return 0x5f, d[:len(d) + extra] if extra < 0 else d + bytes(extra), None, n


def crg_cases():
    for f in FORMATS:
        for n in (1, 2, 3, 257):
            for v in (0, 1, 255, 256, 32768, 65535):
                yield f, n, n, v
            for m in (0, 1, 2, 3, 4, 256, 258):
                yield f, n, m, 7
    for v in range(0, 65536, 257):
        yield 'jp2', 2, 2, v


def crg(case):
    f, n, m, v = case
    d = b''.join(pack('>HH', (v + 3 * i) & 65535, (v ^ i) & 65535) for i in range(m))
    return stream(f, B.seg(0x63, d), n), f


def com_cases():
    texts = [b'', b'a', b'hello world', b'\xa4\xbc\xbd\xe9', b'<&>"\'', b'a\tb\nc\rd', b'\xff' * 3, b'x' * 300,
             b' lead and trail ', b'\x00', b'a\x00', b'\x00a']
    for f in FORMATS:
        for r in (0, 1, 2, 3, 255, 256, 65535):
            for x in texts:
                yield f, r, x, None
        for b in range(256):
            for r in (0, 1):
                yield f, r, bytes((b,)), None
                yield f, r, b'a' + bytes((b,)) + b'z', None
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
            yield f, 1, b'abc', n
            yield f, 0, b'abc', n
    for r in (0, 1):
        for n in (4090, 65531):
            yield 'jp2', r, b'q' * n, None


def com(case):
    f, r, x, n = case
    return stream(f, B.seg(0x64, pack('>H', r) + x, n)), f


def place_seg(marker, n=1, tile=False):
    def f(p, fmt, b):
        return stream(fmt, bytes((255, marker)) + p, n, tile)
    return f


def sweep(name, marker, datas, n=1, **kw):
    """Every length, byte value (also of the length field) and pairs of bytes of a segment."""
    bases = [B.seg(marker, d)[2:] for d in datas]
    kw.setdefault('heavy', {0: (0, 1, 2, 16, 128, 255)})       # high byte of length: long lists
    return content_space(name, 'every cut, every byte value incl. length field, main header and %d components' % n,
                         bases, place_seg(marker, n), kw.pop('formats', ('jp2', 'jhc')), **kw)


def tile_level(t):
    """The same segments in tile-part headers."""
    segs = [(0x52, B.cod_d(1, 2, 3, 1, 2, 3, 4, 5, 0, b'\x11\x22\x33')), (0x53, B.coc_d(0, False, 1, 1, prec=b'\x21\x43')),
            (0x5c, B.qcd_d(0, 3, b'\x48\x50\x58\x60')), (0x5d, B.qcc_d(0, False, 2, 3, bytes(range(14)))),
            (0x5e, B.rgn_d(0, False, 0, 7)), (0x5f, B.poc_d((0, 0, 2, 3, 1, 1), (1, 0, 2, 3, 1, 4))),
            (0x64, b'\0\1Latin'), (0x64, b'\0\0bin')]
    bases = [B.seg(m, d)[2:] for m, d in segs]

    def place(p, fmt, b):
        return stream(fmt, bytes((255, segs[b][0])) + p, 1, True)
    return content_space('tile level', 'every cut and byte value of segments in tile-part headers', bases, place,
                         ('jp2', 'jhc') if t else ('jhc',),
                         single=range(256) if t else BYTE_EDGE)


def precincts():
    for f in ('jp2', 'jhc'):
        for n in range(34):
            for i in range(n + 1):
                for b in (0x01, 0x10, 0x00):
                    for where in range(4):
                        if b or where < 2:
                            yield f, n, i, b, where


def precinct(case):
    f, n, i, b, where = case
    prec = bytes(b if k == i else 0x12 + k for k in range(n + 1))
    seg = B.seg(0x52, B.cod_d(1, levels=n, prec=prec)) if where % 2 == 0 else B.seg(0x53, B.coc_d(0, False, 1, n, prec=prec))
    return stream(f, seg, 1, where > 1), f


def wide(t):
    """Single deviations of the fields of all component segments, in every kind of place."""
    def cases():
        for name, (dom, mk) in DOMS.items():
            for v in deviations(dom, 1):
                for f in FORMATS:
                    for n in (1, 256, 257) if t else (1, 257):
                        for place in range(4):
                            yield name, (n,) + v, f, place
    return cases


DOMS = {
    'coc': ([(0, 1, 256, 16384), (0, 1, 3), (0, 1, 32, 33), (4, 8, 9), (4, 8, 9), (0, 0x40, 0x3f, 0xc0), (1, 0, 2), (0, -1, 1)], coc),
    'qcc': ([(0, 1, 256, 16384), (0, 1, 2, 3), (2, 7), (0, 1, 32), (0, -1, 1)], qcc),
    'rgn': ([(0, 1, 256, 16384), (0, 1), (5, 37, 38, 255), (None, 4, 6)], rgn),
    'poc': ([(1, 2, 3), (0, 1, 32, 33), (0, 1, 256, 16384), (1, 0), (1, 33, 34), (1, 0, 256, 16384, 16385), (0, 4, 5), (0, -1, 1)], poc),
}


def wide_build(case):
    """place: main header, tile-part header, header of the second tile-part, that of the second tile."""
    name, v, f, place = case
    marker, data, length, n = DOMS[name][1](v)
    s = B.seg(marker, data, length)
    if place < 2:
        return stream(f, s, n, place == 1), f
    ht = f in HT
    kw = dict(ht=ht, comps=((7, 1, 1),) * n)
    if place == 2:
        return B.wrap(B.codestream(tiles=B.tilepart(0, 0, 2, B.COM) + B.tilepart(0, 1, 2, s), **kw), f), f
    return B.wrap(B.codestream(tiles=B.tilepart(0, 0, 1) + B.tilepart(1, 0, 1, s + B.COM), x=4, y=4, xt=2, yt=4, **kw), f), f


def spaces(tier):
    t = tier == 'thorough'
    k = 3 if t else 2
    small = BYTE_EDGE
    codd = [(0, 1, 2, 4, 3, 5, 6, 7, 8, 128, 255), (0, 1, 2, 3, 4, 5, 255), (1, 0, 2, 255, 256, 65535),
            (0, 1, 2, 255), LEV, (4, 0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 14, 15, 255), (4, 0, 1, 2, 3, 5, 6, 7, 8, 9, 255),
            (0, 0x40) + tuple(x for x in (1, 2, 4, 8, 16, 32, 63, 0x7f, 0x80, 0xc0, 0xff)), (1, 0, 2, 255),
            (0, -1, 1, 2)]
    cocd = [(1, 2, 256, 257, 300), (0, 1, 255, 256, 257, 16383, 16384, 65535), (0, 1, 2, 3, 128, 255), LEV,
            (4, 0, 1, 5, 8, 9, 255), (4, 0, 3, 8, 9, 255), (0, 0x40, 1, 2, 4, 8, 16, 32, 0x7f, 0x80, 0xff),
            (1, 0, 2, 255), (0, -1, 1, 2)]
    qcdd = [(0, 1, 2, 3, 4, 15, 31), tuple((2, 0, 1, 3, 4, 5, 6, 7)), (0, 1, 2, 5, 31, 32, 33), (0, -1, 1, 2, 3, 5)]
    qccd = [(1, 2, 256, 257, 300), (0, 1, 255, 256, 16383, 16384, 65535)] + qcdd
    rgnd = [(1, 255, 256, 257, 300), (0, 1, 254, 255, 256, 16383, 16384, 65535), (0, 1, 2, 128, 255),
            (5, 0, 1, 36, 37, 38, 127, 128, 254, 255), (None, 0, 2, 3, 4, 5, 6, 7)]
    pocd = [(1, 3, 256, 257, 300), (1, 0, 2, 3, 10), (0, 1, 31, 32, 33, 255), (0, 1, 2, 254, 255, 16383, 16384),
            (1, 0, 2, 65535), (1, 0, 2, 32, 33, 34, 255), (1, 0, 2, 254, 255, 16383, 16384, 16385, 65535),
            (0, 1, 4, 5, 255), (0, -1, 1, 3)]
    out = []
    for name, dom, mk, kk in (('COD', codd, cod, k), ('COC', cocd, coc, k), ('QCD', qcdd, qcd, 4),
                              ('QCC', qccd, qcc, k), ('RGN', rgnd, rgn, k), ('POC', pocd, poc, k)):
        c, b = fields(dom, kk, mk, FORMATS if t else ('jp2', 'jhc'))
        out.append(file_space(name + ' fields', 'up to %d fields deviate over edge values' % kk, c, b))
    out += [
        file_space('CRG', 'component registration values and counts', crg_cases, crg),
        file_space('COM', 'registration x text, every byte value, every length', com_cases, com),
        sweep('COD bytes', 0x52, [B.cod_d(), B.cod_d(1, 1, 2, 1, 2, 3, 4, 0x40, 0, b'\x12\x34\x56')],
              pairs=(0, 1, 64, 255) if t else ()),
        sweep('COC bytes', 0x53, [B.coc_d(), B.coc_d(0, False, 1, 2, 3, 4, 0x40, 0, b'\x12\x34\x56')],
              pairs=(0, 1, 64, 255) if t else ()),
        sweep('COC bytes wide', 0x53, [B.coc_d(0, True, 1, 1, 3, 4, 0, 0, b'\x12\x34')], n=257,
              single=range(256) if t else small, formats=('j2c', 'jhc')),
        sweep('QCD bytes', 0x5c, [B.qcd_d(0, 2, bytes((0x48, 0x50, 0x58, 0x60))), B.qcd_d(1, 3, b'\x12\x34'),
                                  B.qcd_d(2, 4, bytes(range(100, 114)))], pairs=(0, 1, 64, 255) if t else ()),
        sweep('QCC bytes', 0x5d, [B.qcc_d(0, False, 0, 2, bytes((0x48, 0x50, 0x58, 0x60))),
                                  B.qcc_d(0, False, 1, 3, b'\x12\x34'), B.qcc_d(0, False, 2, 4, bytes(range(100, 114)))]),
        sweep('QCC bytes wide', 0x5d, [B.qcc_d(1, True, 0, 2, bytes((0x48, 0x50, 0x58, 0x60))),
                                       B.qcc_d(256, True, 2, 4, bytes(range(100, 114)))], n=257,
              single=range(256) if t else small, formats=('j2c', 'jhc')),
        sweep('RGN bytes', 0x5e, [B.rgn_d()], formats=FORMATS, pairs=(0, 1, 5, 37, 38, 255)),
        sweep('RGN bytes wide', 0x5e, [B.rgn_d(256, True)], n=257, formats=('j2c', 'jhc'),
              single=range(256) if t else small),
        sweep('POC bytes', 0x5f, [B.poc_d((1, 2, 3, 4, 5, 1)), B.poc_d((0, 0, 1, 1, 1, 0), (1, 1, 2, 9, 3, 4))]),
        sweep('POC bytes wide', 0x5f, [B.poc_d((1, 2, 3, 4, 500, 1), wide=True)], n=257, formats=('j2c', 'jhc'),
              single=range(256) if t else small),
        sweep('CRG bytes', 0x63, [pack('>HHHH', 1, 2, 3, 4)], n=2),
        tile_level(t),
    ]
    out.append(scale.lists(t))
    out.append(file_space('precincts', 'every number of levels, one size that is only allowed at the lowest level at every level', precincts, precinct))
    out.append(F.space('features', F.CODING + F.TCODING, 2, also=('fmt', 'comps', 'where')))
    out.append(file_space('tile level wide', 'fields of tile-part segments x format x number of components x tile-part', wide(t), wide_build))
    return out, ['one swept segment per codestream', 'field vectors deviate from a valid default in at most %d '
                 'places at a time; single bytes take all values' % k]
