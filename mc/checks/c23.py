"""Raw codestream and wrapped codestream agree"""
import itertools
from struct import pack

from .. import build as B
from .. import compare, corpus, faults, features as F, impl, scale, spec
from ..common import FnSpace, count_units, patch

PAIRS = (('j2c', 'jp2'), ('jhc', 'jph'))
EDGE = (0, 1, 2, 3, 7, 8, 16, 33, 64, 127, 128, 255)


def canon(e, skip=()):
    return tuple((k.tag, k.text if not len(k) else '', tuple(sorted(k.attrib.items())), canon(k)) for k in e if k.tag not in skip)


def inner(part):
    """Codestream part of one section of the report of a wrapped codestream."""
    e = part.find('contiguousCodestreamBox')
    return canon(e) if e is not None else ()


def wrappers(fmt, cs):
    """Different files of the format that hold this codestream."""
    yield B.jp2(fmt, cs=cs)
    yield B.jp2(fmt, cs=cs, hdr=B.ihdr(nc=3, h=9) + B.colr(cs=16) + B.res(B.RESC), before=B.XMLBOX, after=B.UUIDBOX)
    yield B.SIG + B.ftyp(b'jph ' if fmt == 'jph' else b'jp2 ') + B.jp2h(B.ihdr() + B.colr()) + B.jp2c(cs, 0)
    yield B.SIG + B.ftyp(b'jph ' if fmt == 'jph' else b'jp2 ') + B.jp2h(B.ihdr() + B.colr()) + B.jp2c(cs, 8) + B.JP2I


def check(R, cs, variants=(0,), opts=((True, False), (False, True)), pairs=PAIRS):
    R.file('codestream', cs)
    for raw, wrapped in pairs:
        ratios = None
        for verbose, pm in opts:
            a = impl.analyse(cs, raw, verbose, pm)
            want = spec.expect(cs, raw, pm)
            R.execs += 1
            R.traces += 1
            R.steps += count_units(want)
            R.outcome(a.key())
            for m in compare.full(a, want, verbose, raw):
                R.fail('[%s] %s' % (raw, m))
            if a.success != 'True':
                continue
            for i, w in enumerate(wrappers(wrapped, cs)):
                if i not in variants:
                    continue
                b = impl.analyse(w, wrapped, verbose, pm)
                R.execs += 1
                R.state(w, wrapped, verbose, pm)
                if b.success != 'True':
                    R.fail('[%s] analysis failed in wrapper %d only' % (wrapped, i))
                    continue
                for part in ('tests', 'properties', 'warnings'):
                    x, y = canon(getattr(a, part), ('compressionRatio',)), inner(getattr(b, part))
                    if part == 'warnings' and not cs:
                        continue
                    if x != y:
                        R.fail('[%s, %s wrapper %d] %s differ: %s' % (raw, wrapped, i, part, diff(x, y)))


def diff(x, y):
    for p, q in itertools.zip_longest(x, y):
        if p != q:
            return '%s and %s' % (str(p)[:200], str(q)[:200])


def streams():
    v = corpus.everything()
    out = {}
    for n, (fmt, d) in v.items():
        if fmt in ('j2c', 'jhc'):
            out[n] = d
        else:
            for t, c in spec.split_boxes(d):
                if t == b'jp2c' and c is not None:
                    out.setdefault(n, bytes(c))
    return out


def corpus_space():
    names = list(streams())

    def run(n, R):
        check(R, streams()[n], (0, 1, 2, 3), tuple(itertools.product((True, False), repeat=2)))
    return FnSpace('corpus', 'every codestream of the corpus, 4 ways to wrap it, all formats and options', lambda: iter(names), run)


def sweep(t):
    s = streams()
    names = [n for n in ('j2c', 'jhc', 'j2c-rich', 'jhc-rich', 'jp2-bpcc', 'j2c-many', 'j2c-psot0')]
    vals = tuple(range(256)) if t else EDGE

    def cases():
        for n in names:
            for p in range(len(s[n])):
                for v in (vals if len(s[n]) < 400 or t else EDGE[::2]):
                    if v != s[n][p]:
                        yield n, p, v

    def run(case, R):
        n, p, v = case
        d = patch(s[n], ((p, v),))
        siz = spec.expect(d, 'j2c').kid('siz')
        if siz is not None and siz.value('csiz') > 600:
            return
        check(R, d, (0,) if p % 3 else (2,), ((p % 2 == 0, v % 2 == 0),))
    return FnSpace('bytes', 'every byte of %d codestreams set to %d values' % (len(names), len(vals)), cases, run)


def cuts(t):
    s = streams()

    def cases():
        for n in ('j2c-rich', 'jhc-rich', 'j2c-many', 'jp2-bpcc'):
            for k in range(len(s[n]) + 1):
                yield n, k
            for k in range(1, 4):
                yield n, -k

    def run(case, R):
        n, k = case
        d = s[n][:k] if k >= 0 else s[n] + bytes(-k)
        check(R, d, (0, 1), ((True, True),))
    return FnSpace('truncation', 'every prefix of 4 codestreams', cases, run)


def defects(k):
    names = [n for n in faults.NAMES if n not in faults.BOXES]

    def cases():
        for ch in faults.choices(k, names):
            for ht in (0, 1):
                yield ch, ht

    def run(case, R):
        ch, ht = case
        cs = faults.assemble(dict(ch), 'jhc' if ht else 'j2c')
        check(R, cs, (0,), ((True, False), (False, True)))
    return FnSpace('defects', 'up to %d defective pieces out of %d, either kind of codestream in all formats' % (k, len(names)), cases, run)


def segs(t):
    al = {'C': B.COD, 'H': B.HTCOD, 'Q': B.QCD, 'c': B.COC, 'q': B.QCC, 'r': B.RGN, 'p': B.POC, 'g': B.CRG, 'm': B.COM, 'a': B.CAP,
          'f': B.PRF, 'F': B.CPF, 't': B.TLM, 'l': B.PLM, 'P': B.PPM, 'u': B.UNK}
    tl = {'C': B.COD, 'H': B.HTCOD, 'Q': B.QCD, 'c': B.COC, 'q': B.QCC, 'r': B.RGN, 'p': B.POC, 'm': B.COM, 'l': B.PLT, 'P': B.PPT, 'u': B.UNK}
    depth = 3 if t else 2

    def cases():
        for n in range(depth + 1):
            for s in itertools.product(al, repeat=n):
                yield 0, ''.join(s)
            for s in itertools.product(tl, repeat=n):
                yield 1, ''.join(s)

    def run(case, R):
        k, s = case
        for rsiz in (0, 0x4000):
            if k == 0:
                cs = B.codestream(rsiz=rsiz, main=b''.join(al[x] for x in s))
            else:
                cs = B.codestream(rsiz=rsiz, main=B.COD + B.QCD, tiles=B.tilepart(0, 0, 2, b''.join(tl[x] for x in s)) + B.tilepart(0, 1, 2, tl[s[0]] if s else b''))
            check(R, cs, (0,), ((len(s) % 2 == 0, rsiz == 0),))
    return FnSpace('segments', 'all sequences of up to %d segments in main and tile-part header' % depth, cases, run)


def ratios():
    """Compression ratio of raw codestreams: described image over size of the codestream."""
    def cases():
        dims = (1, 2, 3, 100, 4097, 65536, 2 ** 31, 2 ** 32 - 1)
        for x, y in itertools.product(dims, repeat=2):
            yield x, y, 0, 0, ((7, 1, 1),), 0
        for xo, yo in itertools.product((0, 1, 5, 50, 99, 100, 101, 200), repeat=2):
            yield 100, 150, xo, yo, ((7, 1, 1),), 0
        for n in (1, 2, 3, 4, 5, 20):
            for d in (0, 7, 15, 37, 128, 135, 255):
                yield 60, 70, 3, 4, ((d, 1, 1), (7, 2, 2)) * n, 0
        for pad in (0, 1, 100, 1000, 12345):
            yield 640, 480, 0, 0, ((7, 1, 1),) * 3, pad

    def run(case, R):
        x, y, xo, yo, comps, pad = case
        cs = B.codestream(x=x, y=y, xo=xo, yo=yo, comps=comps, tiles=B.tilepart(data=bytes(pad)))
        check(R, cs, (0, 1), ((False, False),))
        cs = B.codestream(x=x, y=y, xo=xo, yo=yo, comps=comps, tiles=B.tilepart(data=bytes(pad)), ht=True)
        check(R, cs, (0,), ((False, False),))
    return FnSpace('compression ratio', 'image sizes, offsets, components, depths and stream lengths', cases, run)


def format_rules(t):
    """Rules that depend on the format: the same codestream in all four formats, against the reference model."""
    def cases():
        for rsiz in (0, 1, 2, 3, 0x4000, 0x4001, 0x7fff, 0x8000, 0xc000):
            for cap in (b'', B.CAP, B.seg(0x50, pack('>I', 1 << 17)), B.seg(0x50, pack('>IHH', 3 << 16, 1, 2))):
                for style in (0, 1, 32, 0x40, 0x41, 0x80, 0xc0, 0xff):
                    for levels in (0, 5, 32, 33):
                        yield rsiz, cap, style, levels

    def run(case, R):
        rsiz, cap, style, levels = case
        cs = B.codestream(rsiz=rsiz, main=cap + B.seg(0x52, B.cod_d(style=style, levels=levels)) + B.QCD +
                          B.seg(0x53, B.coc_d(style=style, levels=levels)))
        check(R, cs, (0,), ((True, False),))
    return FnSpace('format rules', 'capability, coding style and decomposition levels in all formats', cases, run)


def large(t):
    """Many segments, components, tiles; long segments."""
    sp = [f(t) for f in (scale.segments, scale.lists, scale.size_segments, scale.tiles, scale.packets)]
    lim = 4200 if t else 600

    def cases():
        for n, (i, c) in enumerate(scale.below(lim, sp)):
            yield n, i, c
        for n in scale.sizes(1 << (22 if t else 18), 1 << 10):
            yield n, 'data', n

    def run(case, R):
        n, i, c = case
        if i == 'data':
            cs = B.codestream(tiles=B.tilepart(data=bytes(c)))
        else:
            cs = sp[i].build(c)[0]
        check(R, cs, (0,) if n % 3 else (2, 3), ((n % 2 == 0, n % 5 == 0),), pairs=PAIRS[n % 2:n % 2 + 1])
    return FnSpace('large codestreams', 'up to %d segments, list entries, components and tiles; long packet data' % lim, cases, run)


def feature_space(t):
    dims = tuple(d for d in F.STREAM if d != 'fmt')

    def cases():
        for i, dev in enumerate(F.vectors(dims, 2)):
            if len(dev) < 2 or t:
                yield dev, 0
                yield dev, 1
            elif dict(dev).get('comps', 1) not in (2, 256):
                yield dev, i % 2

    def run(case, R):
        dev, p = case
        cs = F.stream(F.full(dev + (('fmt', PAIRS[p][1]),)))[0]
        n = len(cs)
        check(R, cs, (0,) if n % 3 else (1, 2, 3), ((n % 2 == 0, n % 5 < 2),), pairs=PAIRS[p:p + 1])
    return FnSpace('features', 'codestreams that combine at most 2 of %d features' % sum(len(F.DIM[d]) - 1 for d in dims), cases, run)


def spaces(tier):
    t = tier == 'thorough'
    return [feature_space(t), large(t), corpus_space(), sweep(t), cuts(t), defects(3 if t else 2), segs(t), ratios(), format_rules(t)], \
        ['announced component counts above 600 are skipped in the byte sweep']
