"""No truncated image is reported valid"""
import itertools

from .. import build as B
from .. import corpus, features as F, scale, spec
from ..common import FnSpace, judge
from ..engine import Space


def check_cut(R, full, fmt, cut, verbose):
    """Oracle independent of the reference model, plus comparison with the model."""
    data = full[:cut]
    rep = judge(R, data, fmt, verbose)
    if rep.success != 'True':
        R.fail('cut at %d: analysis failed (%s)' % (cut, rep.failure))
    end = corpus.codestream_end(full, fmt)
    if cut < end:
        if rep.valid != 'False':
            R.fail('cut at %d of %d: reported valid' % (cut, len(full)))
        if not any(e.text == 'False' for e in rep.tests.iter()):
            R.fail('cut at %d of %d: no failed test' % (cut, len(full)))
    elif cut == len(full) and rep.valid != 'True':
        R.fail('complete file reported not valid')


def all_cuts(files):
    names = list(files)

    def cases():
        for n in names:
            for cut in range(len(files[n][1]), -1, -1):
                for v in (True, False):
                    yield n, cut, v

    def run(case, R):
        n, cut, v = case
        check_cut(R, files[n][1], files[n][0], cut, v)
    return FnSpace('all cuts', 'every truncation point of %d valid files of all four formats, both verbosities'
                   % len(names), cases, run)


def generated(t):
    """Valid files of many shapes (trailing boxes, tile layout, data that looks like markers), every cut."""
    tails = ('', 'x', 'u', 'd', 'c', 'xd', 'dx')
    tail = {'x': B.XMLBOX, 'u': B.UNKBOX, 'd': B.UUIDBOX}
    datas = (b'\x80', b'\xff\x8f\xff\x80', b'\0\0\0\0', b'jp2c', b'\xff\x4f\xff\x51')
    shapes = []
    for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
        for tl in tails if fmt in ('jp2', 'jph') else ('',):
            for di in range(len(datas) if t else 2):
                for lay in range(4):
                    shapes.append((fmt, tl, di, lay))

    def make(shape):
        fmt, tl, di, lay = shape
        ht = fmt in ('jph', 'jhc')
        d = datas[di]
        if lay == 0:
            cs = B.codestream(ht=ht, tiles=B.tilepart(data=d))
        elif lay == 1:
            cs = B.codestream(ht=ht, tiles=B.tilepart(0, 0, 1, data=d) + B.tilepart(1, 0, 1, data=d), **corpus.GRID2)
        elif lay == 2:
            cs = B.codestream(ht=ht, tiles=B.tilepart(0, 0, 2, data=d) + B.tilepart(0, 1, 2, B.COM, data=d))
        else:
            cs = B.codestream(ht=ht, tiles=B.tilepart(0, 0, 0, data=d) + B.tilepart(0, 1, 2, data=d, psot=0))
        if fmt in ('j2c', 'jhc'):
            return cs
        second = B.jp2c(B.codestream(ht=ht))
        return B.jp2(fmt, cs=cs, after=b''.join(tail.get(c, second) for c in tl))

    def cases():
        for s in shapes:
            for cut in range(len(make(s)), -1, -1):
                yield s, cut

    def run(case, R):
        s, cut = case
        check_cut(R, make(s), s[0], cut, True)
    return FnSpace('shapes x cuts', 'every cut of %d generated valid files' % len(shapes), cases, run)


def feature_cuts(t):
    """Every cut of valid files with one (thorough: two, last part of the file) of the features."""
    dims = tuple(d for d in F.ALL if d not in F.OPTIONS[1:] + ('data', 'tail'))         # (those contain end markers)

    def cases():
        for f in ('jp2', 'jph', 'j2c', 'jhc'):
            rest = tuple(d for d in dims if d != 'fmt' and (f in ('jp2', 'jph') or d not in F.HEADER_ONLY))
            for dev in F.vectors(rest, 1):
                if dict(dev).get('comps', 1) > 3 and f != 'j2c':
                    continue
                dev += (('fmt', f),)
                d, _, _ = F.build(dev)
                if not spec.expect(d, f).failed():
                    for cut in range(len(d), -1, -1):
                        if t or f in ('jp2', 'jhc') or cut > len(d) - 40:
                            yield dev, cut
        if t:
            for dev in F.vectors(tuple(d for d in dims if d != 'comps'), 2):
                if dict(dev).get('cenc') == 0 and dict(dev).get('after'):
                    continue
                d, f, _ = F.build(dev)
                if not spec.expect(d, f).failed():
                    for cut in range(len(d), len(d) - 24, -1):
                        yield dev, cut

    def run(case, R):
        dev, cut = case
        d, f, _ = F.build(dev)
        check_cut(R, d, f, cut, cut % 2 == 0)
    return FnSpace('features x cuts', 'every cut of valid files with one of %d features' % sum(len(F.DIM[d]) - 1 for d in dims), cases, run)


def large(t):
    """Long packet data and many tiles: cuts around every structure and around powers of two."""
    shapes = [(f, n, k) for n in scale.sizes(1 << (20 if t else 17), 1 << 8) for f, k in (
        ('jp2', 0), ('j2c', 0), ('jp2', 1), ('jhc', 2))] + [(f, n, 'tiles') for n in (255, 256, 257, 1000) for f in ('jp2', 'jhc')]

    def make(shape):
        fmt, n, k = shape
        ht = fmt in ('jph', 'jhc')
        if k == 'tiles':
            cs = B.codestream(ht=ht, x=n, y=1, xt=1, yt=1, tiles=b''.join(B.tilepart(i, data=b'') for i in range(n)))
            return cs if fmt == 'jhc' else B.jp2(fmt, hdr=B.ihdr(h=1, w=n) + B.colr(), cs=cs)
        d = (bytes(range(255)) * (n // 255 + 1))[:n]
        tiles = B.tilepart(data=d, psot=0 if k == 2 else None) if k != 1 else B.tilepart(0, 0, 2, data=d) + B.tilepart(0, 1, 2, data=d)
        cs = B.codestream(ht=ht, tiles=tiles)
        return B.jp2(fmt, cs=cs, after=B.UUIDBOX) if fmt == 'jp2' else cs

    def cases():
        for s in shapes:
            d = make(s)
            n, end = len(d), corpus.codestream_end(d, s[0])
            cuts = {n} | {end - i for i in range(1, 20)} | set(scale.sizes(n - 1, 64)) | {i * n // 16 for i in range(16)} | \
                {end + i for i in range(0, 12) if end + i < n}
            for c in sorted(cuts):
                yield s, c

    def run(case, R):
        s, cut = case
        check_cut(R, make(s), s[0], cut, cut % 2 == 0)
    return FnSpace('large files', '%d files with up to %d bytes of packet data or 1000 tiles, cut around the end, powers of two and sixteenths' % (
        len(shapes), 1 << (20 if t else 17)), cases, run)


class Balloon(Space):
    """Truncations of the example image shipped with the tool."""
    def __init__(self, step, edge):
        self.step, self.edge = step, edge
        self.name = 'balloon cuts'
        self.rule = 'example_files/balloon.jp2: ' + (
            'every cut' if step == 1 else 'every cut in the first and last %d bytes, every %dth byte between' % (edge, step))

    def cases(self):
        n = corpus.balloon_size()
        yield n
        for c in range(0, n):
            if c < self.edge or c >= n - self.edge or c % self.step == 0:
                yield c

    def setup(self):
        self.data = corpus.balloon()

    def run(self, cut, R):
        check_cut(R, self.data, 'jp2', cut, False)


def spaces(tier):
    t = tier == 'thorough'
    return [all_cuts(corpus.valid()), generated(t), feature_cuts(t), large(t), Balloon(7 if t else 4999, 4096 if t else 700)], \
        ['the codestream data before the cut do not contain an end-of-codestream marker (encoders cannot produce one)',
         'cuts behind the end of the first codestream are compared with the reference model only']
