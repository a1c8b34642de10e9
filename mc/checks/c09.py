"""Tile-part structure decides validity"""
import itertools

from .. import build as B
from .. import features as F
from .. import scale
from ..common import BYTE_EDGE, FORMATS, content_space, deviations, file_space, sequences

GRIDS = {1: dict(x=4, y=4, xt=4, yt=4), 2: dict(x=4, y=4, xt=2, yt=4), 3: dict(x=3, y=1, xt=1, yt=1),
         4: dict(x=4, y=4, xt=2, yt=2), 6: dict(x=6, y=4, xt=2, yt=2), 0: dict(x=0, y=4, xt=4, yt=4)}
SEGS = {
    'D': B.COD, 'Q': B.QCD, 'C': B.COC, 'c': B.seg(0x53, B.coc_d(1)), 'K': B.QCC, 'k': B.seg(0x5d, B.qcc_d(1)),
    'R': B.RGN, 'P': B.POC, 'M': B.COM, 'L': B.PLT, 'H': B.PPT, 'U': B.UNK, 'T': B.TLM, 'Z': B.siz(), 'A': B.CAP,
    'S': B.SOD, 'E': b'\xff\x92', 'O': B.EOC, 'B': b'\xff\x90\0\x0a\0\0\0\0\0\x0e\0\1',
}


def stream(fmt, grid, tiles, eoc=B.EOC, comps=1):
    ht = fmt in ('jph', 'jhc')
    cs = B.codestream(ht=ht, tiles=tiles, eoc=eoc, comps=((7, 1, 1),) * comps, **grid)
    if fmt in ('jp2', 'jph'):
        return B.jp2(fmt, hdr=B.ihdr(h=grid['y'], w=grid['x'], nc=comps) + B.colr(), cs=cs)
    return cs


def tp_words(tiles, isots, tps, tns, depth, formats):
    """All sequences of tile-parts (tile, part number, announced number)."""
    def cases():
        for w in sequences(tuple(itertools.product(isots, tps, tns)), depth):
            for f in formats:
                yield f, tiles, w

    def build(case):
        f, n, w = case
        return stream(f, GRIDS[n], b''.join(B.tilepart(*p) for p in w)), f
    return cases, build


def orders():
    """All orders of the tile-parts of complete images, and all with one part lost or doubled."""
    for n, parts in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2) if False else (2, 3)):
        full = [(t, p) for t in range(n) for p in range(parts)]
        if len(full) <= 6:
            for perm in itertools.permutations(full):
                for announce in (0, 1, 2):           # never, always, only in the first part
                    yield n, parts, announce, perm
                if perm[0] == full[0]:
                    for drop in range(len(perm)):
                        yield n, parts, 1, perm[:drop] + perm[drop + 1:]
                        yield n, parts, 1, perm[:drop] + perm[drop:drop + 1] + perm[drop:]
                        yield n, parts, 0, perm[:drop] + perm[drop + 1:]


def order(case):
    n, parts, announce, perm = case
    t = b''.join(B.tilepart(i, p, parts if announce == 1 or announce == 2 and p == 0 else 0) for i, p in perm)
    return stream('jp2', GRIDS[n], t), 'jp2'


PSOT = ('exact', 0, 1, 2, 11, 12, 13, 14, 15, '-1', '-2', '+1', '+2', '+16', 255, 65535, 2 ** 31 - 1, 2 ** 31,
        2 ** 32 - 2, 2 ** 32 - 1)


def psots(t):
    def cases():
        for f in ('jp2', 'jhc'):
            for n in (1, 2, 3):
                dom = [PSOT] * n
                for v in deviations(dom, 3 if t else 2):
                    for eoc in (B.EOC, b''):
                        for data in (b'\x80\x80', b'\xff\x90\0\x0a\0\0\0\0\0\0\0\1\xff\x93', b''):
                            yield f, n, v, eoc, data
    return cases


def psot(case):
    f, n, v, eoc, data = case
    out = b''
    for i, p in enumerate(v):
        tp = B.tilepart(i, data=data)
        if p == 'exact':
            ps = None
        elif isinstance(p, str):
            ps = len(tp) + int(p)
        else:
            ps = p
        out += B.tilepart(i, data=data, psot=ps)
    return stream(f, GRIDS[n], out, eoc), f


def headers(alpha, depth, formats):
    def cases():
        for w in sequences(alpha, depth):
            for tp in (0, 1):
                for f in formats:
                    yield f, ''.join(w), tp
    return cases


def header(case):
    f, w, tp = case
    segs = b''.join(SEGS[c] for c in w)
    first = B.tilepart(0, 0, 2, b'' if tp else segs)
    second = B.tilepart(0, 1, 2, segs if tp else b'')
    return stream(f, GRIDS[1], first + second), f


def followers():
    """Every marker code where the next tile-part or the end of the codestream must stand."""
    rest = (b'', B.EOC, b'\0\4ab' + B.EOC, b'\0\x0a\0\1\0\0\0\x0e\0\1\xff\x93' + B.EOC)
    codes = [0xff00 | b for b in range(256)] + [b << 8 | c for b in range(255) for c in (0x90, 0xd9)] + [0x80ff]
    for f in FORMATS:
        for c in codes:
            for r in range(len(rest)):
                if f in ('jp2', 'jhc') or r == 1:
                    yield f, 1, c, rest[r]
        for c in codes[:256]:
            yield f, 2, c, B.EOC           # between the tile-parts of two tiles


def follower(case):
    f, n, c, rest = case
    m = bytes((c >> 8, c & 255))
    if n == 1:
        return stream(f, GRIDS[1], B.tilepart() + m, rest), f
    second = B.tilepart(1)
    return stream(f, GRIDS[2], B.tilepart() + m + second[2:], rest), f


def announced():
    """Tile-level segments in any part of tiles that announce their number of parts, or some of them, or never do."""
    for f in ('jp2', 'jhc'):
        for segs in ('D', 'Q', 'C', 'K', 'R', 'P', 'M', 'L', 'H', 'U', 'DQ', 'CK', 'Rc'):
            for tns in itertools.product((0, 3), repeat=3):
                for k in range(3):
                    yield f, segs, tns, (0, 1, 2), k
        for segs in 'DQCKRP':
            for tps in itertools.product((0, 1, 2, 255), repeat=2):
                for tns in itertools.product((0, 1, 2), repeat=2):
                    for k in range(2):
                        yield f, segs, tns, tps, k


def announce(case):
    f, w, tns, tps, k = case
    segs = b''.join(SEGS[c] for c in w)
    return stream(f, GRIDS[1], b''.join(B.tilepart(0, tp, tn, segs if i == k else b'') for i, (tp, tn) in enumerate(zip(tps, tns)))), f


def nosod():
    for f in FORMATS:
        for segs in ('', 'M', 'D', 'L', 'U', 'MU'):
            for data in (b'', b'\x80', b'\xff\x93', b'\x80\xff\x93', b'\xff', b'\xff\xd9', b'\xff\x64\0\4\0\1',
                         b'\xff\x64\0\x40\0\1', b'\xff\x64\0\0', b'\xff\x64\0\1', b'\xff\x64\xff\xff', b'\xff\x90'):
                for sod in (False, True):
                    for follow in (0, 1):
                        yield f, segs, data, sod, follow


def sodless(case):
    f, w, data, sod, follow = case
    segs = b''.join(SEGS[c] for c in w)
    t = B.tilepart(0, 0, 1, segs, data, sod=sod)
    if follow:
        t += B.tilepart(1, 0, 1)
    return stream(f, GRIDS[2 if follow else 1], t), f


def grids(t):
    def cases():
        r = (1, 2, 3, 4, 5)
        for x, xt in itertools.product(r, (1, 2, 3, 5)):
            for y, yt in itertools.product((1, 2, 3) if not t else r, (1, 2, 3)):
                for xo, xto in ((0, 0), (1, 0), (1, 1)):
                    for d in (-1, 0, 1):
                        yield x, y, xt, yt, xo, xto, d
    return cases


def grid(case):
    x, y, xt, yt, xo, xto, d = case
    n = -(-(x - xto) // xt) * -(-y // yt) + d
    tiles = b''.join(B.tilepart(i) for i in range(max(n, 0)))
    cs = B.codestream(tiles=tiles, x=x, y=y, xt=xt, yt=yt, xo=xo, xto=xto)
    return B.jp2('jp2', hdr=B.ihdr(h=y, w=x - xo if x > xo else 1) + B.colr(), cs=cs), 'jp2'


def many():
    for n in (10, 255, 256, 257, 300):
        for d in (-1, 0, 1):
            yield 'tiles', n, d
    for n in (2, 10, 100, 254, 255):
        for d in (-1, 0, 1):
            for announce in (0, 1):
                yield 'parts', n, d, announce


def big(case):
    if case[0] == 'tiles':
        _, n, d = case
        return stream('jp2', dict(x=n, y=1, xt=1, yt=1), b''.join(B.tilepart(i) for i in range(n + d))), 'jp2'
    _, n, d, announce = case
    return stream('jp2', GRIDS[1], b''.join(B.tilepart(0, i & 255, n if announce else 0) for i in range(n + d))), 'jp2'


def far():
    """Few tile-parts of images with very many tiles: indices around the number of tiles and the greatest possible ones."""
    for n in (255, 256, 257, 4095, 65533, 65534, 65535, 65536, 65537, 100000):
        near = sorted({i for i in (0, 1, n - 2, n - 1, n, n + 1, 65533, 65534, 65535) if 0 <= i < 65536})
        for w in itertools.chain(sequences(near, 2), ((n - 1 & 65535, 0, 1),)):
            for f in ('jp2', 'jhc'):
                for tn in (0, 1):
                    yield f, n, w, tn


def far_tiles(case):
    f, n, w, tn = case
    return stream(f, dict(x=n, y=1, xt=1, yt=1), b''.join(B.tilepart(i, 0, tn) for i in w)), f


def seg_parts():
    """Tile-level segments in the parts of several tiles."""
    letters = ('', 'D', 'C', 'K', 'Q', 'R', 'P', 'M', 'CC', 'KK', 'Cc', 'Kk', 'CK')
    for f in ('jp2', 'jhc'):
        for a in letters:
            for b in letters:
                for c in ('', 'D', 'C', 'K'):
                    yield f, a, b, c


def seg_part(case):
    f, a, b, c = case
    s = ['', '', '']
    w = [b''.join(SEGS[x] for x in v) for v in (a, b, c)]
    t = B.tilepart(0, 0, 2, w[0]) + B.tilepart(1, 0, 1, w[1]) + B.tilepart(0, 1, 2, w[2])
    return stream(f, GRIDS[2], t, comps=2), f


def spaces(tier):
    t = tier == 'thorough'
    out = []
    for tiles, isots, tps, tns, depth in (
            (1, (0, 1), (0, 1), (0, 1, 2), 4 if t else 3), (2, (0, 1, 2), (0, 1), (0, 1, 2), 4 if t else 3),
            (2, (0, 1), (0,), (0, 1, 2), 6 if t else 4), (3, (0, 1, 2, 3), (0,), (0, 1), 5 if t else 4),
            (2, (0, 1, 255, 256, 65534, 65535), (0, 1, 254, 255), (0, 1, 255), 2), (0, (0, 1), (0,), (0, 1), 2)):
        c, b = tp_words(tiles, isots, tps, tns, depth, ('jp2',) if not t else ('jp2', 'jhc'))
        out.append(file_space('tile-parts %d tiles %d kinds' % (tiles, len(isots) * len(tps) * len(tns)),
                              'all sequences of at most %d tile-parts over isot x tpsot x tnsot in %s x %s x %s' % (
                                  depth, isots, tps, tns), c, b))

    def place_sot(p, fmt, b):
        return stream(fmt, GRIDS[2], b'\xff\x90' + p + B.SOD + b'\x80' + B.tilepart(1))
    sot0 = B.tilepart(0, data=b'\x80')[2:12]
    out += [
        file_space('orders', 'all orders of tile-parts of complete and incomplete images', orders, order),
        file_space('lengths', 'tile-part lengths off, zero, short, huge; 1-3 tile-parts', psots(t), psot),
        file_space('tile headers', 'all tile-part headers of at most %d segments of 10 kinds, part 0 and 1' % (
            4 if t else 3), headers('DQCcKkRPMLHU' if t else 'DQCcKkRL', 4 if t else 3, ('jp2',)), header),
        file_space('tile headers all kinds', 'all tile-part headers of at most 2 segments of %d kinds' % len(SEGS),
                   headers(''.join(SEGS), 2, FORMATS), header),
        file_space('announced numbers', 'tile-level segments x part x announced numbers of parts', announced, announce),
        file_space('followers', 'every marker code behind a tile-part', followers, follower),
        file_space('no SOD', 'tile-part headers without start-of-data, look-alikes in data', nosod, sodless),
        file_space('grids', 'tile grids with one tile too few, all, one too many', grids(t), grid),
        file_space('far indices', 'few tile-parts of images with up to 100000 tiles', far, far_tiles),
        file_space('many', 'hundreds of tiles and tile-parts', many, big),
        file_space('tile-level segments', 'segments in the parts of two tiles', seg_parts, seg_part),
        content_space('SOT bytes', 'every cut and byte value of the tile-part marker segment', [sot0], place_sot,
                      FORMATS if t else ('jp2', 'jhc'), pairs=(0, 1, 2, 14, 15, 255)),
    ]
    out.append(scale.tiles(t))
    out.append(F.space('features', ('fmt', 'packets', 'grid') + F.TILE, 3 if t else 2, also=('fmt', 'parts', 'where', 'packets')))
    return out, ['packet data are two bytes long (contents are never interpreted)']
