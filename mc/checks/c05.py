"""Image header must agree with the codestream"""
import itertools

from .. import build as B
from .. import decoy
from .. import features as F
from .. import scale
from ..common import deviations, file_space

FMT = ('jp2', 'jph')


def make(fmt, h, w, nc, bpc, bpcc, x, y, xo, yo, comps, pad=0, extra=b'', xt=None, yt=None):
    hdr = B.ihdr(h=h, w=w, nc=nc, bpc=bpc) + (B.bpcc(*bpcc) if bpcc is not None else b'') + B.colr() + extra
    ht = fmt == 'jph'
    cs = B.codestream(ht=ht, x=x, y=y, xo=xo, yo=yo, comps=tuple((b, 1, 1) for b in comps),
                      xt=max(x, 1) if xt is None else xt, yt=max(y, 1) if yt is None else yt,
                      tiles=B.tilepart(data=b'\x80' * (2 + pad)))
    return B.jp2(fmt, hdr=hdr, cs=cs), fmt


def geometry():
    e = (0, 1, 2, 3, 4, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1)
    for f in FMT:
        for h in e:
            for y in e:
                for yo in (0, 1, 2, 3, 2 ** 31, 2 ** 32 - 2):
                    if y >= yo:
                        yield f, (h, 4, 1, 7, None, 4, y, 0, yo, (7,))
                        yield f, (4, h, 1, 7, None, y, 4, yo, 0, (7,))
        for v in itertools.product((1, 2, 3), repeat=4):
            for o in itertools.product((0, 1, 2), repeat=2):
                h, w, x, y = v
                yield f, (h, w, 1, 7, None, x, y, o[0], o[1], (7,))


def agree():
    """Files whose header agrees with the codestream."""
    for f in FMT:
        for x, y in itertools.product((1, 2, 3, 7, 255, 256, 1000, 65535), repeat=2):
            for xo, yo in ((0, 0), (1, 0), (0, 1), (2, 1)):
                if x > xo and y > yo:
                    for n in (1, 2, 3, 4):
                        yield f, (y - yo, x - xo, n, 7, None, x, y, xo, yo, (7,) * n)


def depths():
    vals = (0, 7, 37, 128, 135, 165, 255)
    for f in FMT:
        for b in range(256):
            for c in (0, 6, 7, 8, 37, 38, 127, 128, 134, 135, 136, 165, 255, b, b ^ 128, b ^ 1):
                yield f, (4, 4, 1, b, None, 4, 4, 0, 0, (c,))
        for n in range(1, 4):
            for cs in itertools.product((7, 8, 135), repeat=n):
                for nc in range(0, 5):
                    for b in (7, 8, 135):
                        yield f, (4, 4, nc, b, None, 4, 4, 0, 0, cs)
        # depths vary: bits per component box
        for n in range(1, 4):
            for cs in itertools.product((7, 15, 135), repeat=n):
                for m in range(0, 4):
                    for bs in itertools.product((7, 15, 135), repeat=m):
                        yield f, (4, 4, n, 255, bs, 4, 4, 0, 0, cs)
                yield f, (4, 4, n, 255, None, 4, 4, 0, 0, cs)
                for b in (7, 15, 127, 128, 254):
                    yield f, (4, 4, n, b, cs, 4, 4, 0, 0, cs)          # box present but not announced
                    yield f, (4, 4, n, b, (8,) * n, 4, 4, 0, 0, cs)
        for b in vals:
            for c in vals:
                yield f, (4, 4, 2, 255, (b, c), 4, 4, 0, 0, (b, c))
                yield f, (4, 4, 2, 255, (b, c), 4, 4, 0, 0, (c, b))
                yield f, (4, 4, 2, 255, (b, c), 4, 4, 0, 0, (b, b))


def counts():
    for f in FMT:
        for a in (0, 1, 2, 3, 4, 255, 256, 257, 300):
            for b in (1, 2, 3, 4, 255, 256, 257, 300):
                yield f, (4, 4, a, 7, None, 4, 4, 0, 0, (7,) * b)
                yield f, (4, 4, a, 255, (7,) * a, 4, 4, 0, 0, (7,) * b)
                if a == b:
                    for p in (0, a // 2, a - 1):
                        v = tuple(8 if i == p else 7 for i in range(a))
                        yield f, (4, 4, a, 255, v, 4, 4, 0, 0, (7,) * b)
                        yield f, (4, 4, a, 255, (7,) * a, 4, 4, 0, 0, v)
                        yield f, (4, 4, a, 7, None, 4, 4, 0, 0, v)


def ratios():
    """Compression ratio: image sizes, depths and file sizes."""
    for f in FMT:
        for pad in tuple(range(0, 40)) + (97, 128, 511, 1000, 4000):
            for w, h in ((1, 1), (4, 4), (3, 7), (100, 41), (65535, 3)):
                for cs in ((7,), (7, 7, 7), (0,), (15, 7), (37, 37), (135,)):
                    if len(set(cs)) == 1:
                        yield f, (h, w, len(cs), cs[0], None, w, h, 0, 0, cs, pad)
                    else:
                        yield f, (h, w, len(cs), 255, cs, w, h, 0, 0, cs, pad)


def several(t):
    """Deviations of several fields at once from an agreeing file."""
    dom = [(4, 3, 0), (4, 5, 1), (2, 1, 3), (7, 8, 135, 255), (None, (7, 7), (7, 8), (135, 7)), (4, 5), (4, 6),
           (0, 1), (0, 2), ((7, 7), (7,), (7, 8), (135, 135), (7, 7, 7))]

    def cases():
        for f in FMT:
            for v in deviations(dom, 4 if t else 3):
                yield f, v
    return cases


def two_codestreams():
    """Only the first codestream box and the first header box count."""
    for f in FMT:
        for dims in itertools.product((3, 4), repeat=4):
            for n in (1, 2):
                yield f, dims, n


def two(case):
    f, (h, w, y, x), n = case
    ht = f == 'jph'
    a = B.jp2c(B.codestream(ht=ht, x=x, y=y, comps=((7, 1, 1),) * n))
    b = B.jp2c(B.codestream(ht=ht))
    return B.SIG + B.ftyp(b'jph ' if ht else b'jp2 ') + B.jp2h(B.ihdr(h=h, w=w), B.colr()) + a + b, f


def strays():
    """Header boxes outside the header: real boxes with other values, wherever a box can lie."""
    places = ('before', 'mid', 'after', 'uinf', 'res', 'first', 'last')
    boxes = (('ihdr', (3, 3, 1, 7)), ('ihdr', (4, 4, 2, 7)), ('ihdr', (4, 4, 1, 255)), ('ihdr', (4, 4, 1, 7)),
             ('bpcc', (7,)), ('bpcc', (8,)), ('bpcc', (7, 8)), ('jp2h', (3, 3, 1, 7)), ('jp2h', (4, 4, 2, 255)), ('jp2h', (4, 4, 1, 7)))
    hosts = ((4, 1, 7, None, (7,)), (3, 1, 7, None, (7,)), (4, 2, 7, None, (7,)), (4, 1, 255, None, (7,)), (4, 1, 255, (7,), (7,)),
             (4, 1, 255, (8,), (7,)), (4, 2, 255, (7, 8), (7, 8)))
    for f in FMT:
        for h in hosts:
            for b in boxes:
                for p in places:
                    yield f, h, (b,), (p,)
            for a, b in itertools.product(boxes[:7], repeat=2):
                for p in (('before', 'after'), ('mid', 'first'), ('uinf', 'last')):
                    yield f, h, (a, b), p


def stray(case):
    f, (size, nc, bpc, bpcc, comps), boxes, places = case
    at = {}
    for (k, v), p in zip(boxes, places):
        if k == 'bpcc':
            b = B.bpcc(*v)
        else:
            b = B.ihdr(h=v[0], w=v[1], nc=v[2], bpc=v[3])
            if k == 'jp2h':
                b = B.jp2h(b, B.colr())
        at[p] = B.res(B.RESC, b) if p == 'res' else B.box(b'uinf', B.ULST + b + B.URL) if p == 'uinf' else b
    hdr = at.get('first', b'') + B.ihdr(h=size, w=4, nc=nc, bpc=bpc) + (B.bpcc(*bpcc) if bpcc else b'') + B.colr() + at.get('res', b'') + at.get('last', b'')
    cs = B.codestream(ht=f == 'jph', comps=tuple((b, 1, 1) for b in comps))
    return B.jp2(f, hdr=hdr, cs=cs, before=at.get('before', b''), mid=at.get('mid', b''), after=at.get('after', b'') + at.get('uinf', b'')), f


def build(case):
    return make(case[0], *case[1])


def spaces(tier):
    t = tier == 'thorough'
    return [
        file_space('geometry', 'header height/width against grid size and offset over edge values', geometry, build),
        file_space('agreeing files', 'headers that agree, all small sizes and offsets', agree, build),
        file_space('depths', 'sign and depth of header, bits per component box and components', depths, build),
        file_space('component counts', 'number of components, also beyond 256', counts, build),
        file_space('ratios', 'image size x depth x file size', ratios, build),
        file_space('several', 'all combinations of up to %d deviations' % (4 if t else 3), several(t), build),
        file_space('two codestreams', 'two codestreams of different geometry', two_codestreams, two),
        file_space('strays', 'header boxes with other values outside the header: 10 boxes and 49 pairs, 7 places, 7 files', strays, stray),
        file_space('decoys', 'XML and XMP boxes that contain reports of other images and all their parts, 6 files, 5 positions', decoy.cases(), decoy.make),
        scale.agreement(t),
        F.space('features', ('fmt', 'mid', 'after', 'ibpc', 'inc', 'idim', 'bpcc', 'comps', 'depth', 'sub', 'offset', 'grid', 'tileoff'), 4 if t else 3),
    ], ['compression ratio is compared after rounding to two decimals']
