"""Box length encoding does not matter"""
import itertools

from .. import build as B
from .. import features as F
from .. import impl, scale, spec
from ..common import FnSpace, judge

# (type, contents or list of sub-boxes)
H1 = (b'jp2h', [(b'ihdr', B.ihdr_d()), (b'colr', b'\1\0\0\0\0\0\x11')])
H2 = (b'jp2h', [(b'ihdr', B.ihdr_d()), (b'colr', b'\1\0\0\0\0\0\x11'),
                (b'res ', [(b'resc', B.res_d()), (b'resd', B.res_d(7, 2, 3, 1))])])
S = (b'jP  ', b'\r\n\x87\n')
U = (b'uinf', [(b'ulst', b'\0\1' + B.UUID1), (b'url ', b'\0\0\0\0http://x/\0')])


def files(fmt):
    brand = b'jph ' if fmt == 'jph' else b'jp2 '
    f = (b'ftyp', brand + b'\0\0\0\0' + brand)
    c = (b'jp2c', B.codestream(ht=fmt == 'jph'))
    return {
        'basic': [S, f, H1, c],
        'res': [S, f, H2, c],
        'xml last': [S, f, H1, c, (b'xml ', B.XML)],
        'uinf last': [S, f, H1, c, U],
        'uuid first': [S, f, (b'uuid', B.UUID1 + b'data'), H1, c],
        'unknown': [S, f, (b'abcd', b'xyz'), H1, c, (b'free', b'')],
        'header last': [S, f, c, H1],
        'only header': [H2],
        'xmp': [S, f, H1, c, (b'uuid', B.XMP + B.XML)],
        'bad': [f, S, (b'jp2h', [(b'colr', b'\1\0'), (b'ihdr', b'abc')]), c],
        'empty boxes': [S, f, (b'jp2h', []), (b'xml ', b''), (b'jp2c', b'')],
    }


def slots(boxes, container_last=True):
    """Encodings allowed for every box, in depth-first order."""
    out = []
    for i, (typ, d) in enumerate(boxes):
        last = i == len(boxes) - 1
        out.append((4, 8, 0) if last else (4, 8))
        if isinstance(d, list):
            out += slots(d)
    return out


def write(boxes, enc):
    out = b''
    for typ, d in boxes:
        e = next(enc)
        if isinstance(d, list):
            d = write(d, enc)
        out += B.box(typ, d, e)
    return out


def cases_of(limit):
    def cases():
        for fmt in ('jp2', 'jph'):
            for name, boxes in files(fmt).items():
                sl = slots(boxes)
                if len(sl) <= limit:
                    for enc in itertools.product(*sl):
                        yield fmt, name, enc
                else:
                    for k in range(4):
                        for pos in itertools.combinations(range(len(sl)), k):
                            for v in itertools.product(*[sl[p][1:] for p in pos]):
                                e = [4] * len(sl)
                                for p, x in zip(pos, v):
                                    e[p] = x
                                yield fmt, name, tuple(e)
    return cases


def strip(rep):
    """Report without what depends on the size of the file."""
    return [(e.tag, e.text, len(e)) for p in ('isValid', 'tests', 'properties', 'warnings')
            for e in rep.root.find(p).iter() if e.tag != 'compressionRatio']


def run(case, R):
    fmt, name, enc = case
    boxes = files(fmt)[name]
    data = write(boxes, iter(enc))
    rep = judge(R, data, fmt, True)
    ref = judge(R, write(boxes, iter((4,) * len(enc))), fmt, True)
    if strip(rep) != strip(ref):
        R.fail('report differs from that of the same file with 32-bit lengths')


def tree_of(data):
    return [(bytes(t), tree_of(d) if t in (b'jp2h', b'res ', b'uinf') else bytes(d)) for t, d in spec.split_boxes(data)]


def feature_cases(t):
    """Files with optional parts of every kind: each box on its own, each pair of nested ones, all at once."""
    dims = tuple(d for d in F.ALL if d not in F.OPTIONS[1:] + ('henc', 'cenc'))

    def cases():
        for dev in F.vectors(dims, 2 if t else 1):
            for fmt in ('jp2', 'jph'):
                if 'fmt' in dict(dev) or dict(dev).get('comps', 1) > 3 and (t or fmt == 'jph'):
                    continue
                d = dev + (('fmt', fmt),)
                sl = slots(tree_of(F.build(d)[0]))
                n = len(sl)
                yield d, (8,) * n
                if len(dev) > 1:
                    continue
                for i in range(n):
                    for e in sl[i][1:]:
                        yield d, (4,) * i + (e,) + (4,) * (n - i - 1)
                yield d, tuple(s[-1] for s in sl)
    return cases


def feature_run(case, R):
    dev, enc = case
    data, fmt, _ = F.build(dev)
    boxes = tree_of(data)
    new = write(boxes, iter(enc))
    if strip(judge(R, new, fmt)) != strip(impl.analyse(data, fmt, True)):
        R.fail('report differs from that of the same file with 32-bit lengths')


def sizes(t):
    """Extended lengths at sizes around the powers of two."""
    def cases():
        for n in [0, 1] + scale.sizes(1 << (24 if t else 20)):
            for typ in (b'uuid', b'xml ', b'abcd', b'jp2c', b'bpcc', b'colr'):
                if n < 20000 or typ != b'bpcc':
                    for enc in (8, 0):
                        for last in (0, 1) if enc == 8 else (1,):
                            yield typ, n, enc, last
    return cases


def size_run(case, R):
    typ, n, enc, last = case

    def make(e):
        if typ == b'jp2c':
            cs = B.jp2c(B.codestream(tiles=B.tilepart(data=bytes(n))), e)
            return B.SIG + B.ftyp() + B.jp2h(B.ihdr() + B.colr()) + cs + (b'' if last else B.XMLBOX)
        if typ in (b'bpcc', b'colr'):
            b = B.box(typ, bytes(n) if typ == b'bpcc' else b'\2\0\0' + B.icc_d(desc=b'd' * n), e)
            return B.jp2(hdr=B.ihdr() + B.colr() + b + (b'' if last else B.res(B.RESC)))
        b = B.box(typ, b'<a>' + b'q' * n + b'</a>' if typ == b'xml ' else B.UUID1 + b'q' * n, e)
        return B.jp2(after=b) if last else B.jp2(before=b)
    rep, ref = judge(R, make(enc), 'jp2'), judge(R, make(4), 'jp2')
    if strip(rep) != strip(ref):
        R.fail('report differs from that of the same file with 32-bit lengths')


CONTENTS = {
    b'jP  ': b'\r\n\x87\n', b'ftyp': b'jp2 \0\0\0\0jp2 jpx ', b'jp2i': b'<a/>', b'xml ': B.XML, b'uuid': B.UUID1 + b'data',
    b'uinf': B.ULST + B.URL, b'jp2h': B.ihdr() + B.colr(), b'ihdr': B.ihdr_d(), b'bpcc': b'\7\7\x87',
    b'colr': b'\1\0\0\0\0\0\x11', b'pclr': B.pclr_d(), b'cmap': B.cmap_d((0, 1, 0), (0, 1, 1)),
    b'cdef': B.cdef_d((0, 0, 1), (1, 1, 0)), b'res ': B.RESC + B.RESD, b'jp2c': B.codestream(), b'resc': B.res_d(),
    b'resd': B.res_d(7, 2, 3, 1), b'ulst': b'\0\2' + B.UUID1 + B.XMP, b'url ': b'\0\0\0\0http://x/\0', b'abcd': b'hello'}


def last(t):
    """Every type of box as last box of every kind of container, contents of every length."""
    def cases():
        for typ in CONTENTS:
            n = len(CONTENTS[typ])
            for where in ('top', 'jp2h', 'res ', 'uinf', 'deep'):
                for k in range(n + (17 if t else 5)):
                    if t or k < 5 or k > n - 13 or k % 8 == 0:
                        yield typ, where, k
    return cases


def last_run(case, R):
    typ, where, k = case
    data = (CONTENTS[typ] + b'\0\1\2\3' * 5)[:k]

    def make(e, outer=4):
        b = B.box(typ, data, e)
        if where == 'top':
            return B.jp2(after=b)
        if where == 'jp2h':
            return B.jp2(hdr=B.ihdr() + B.colr() + b)
        if where == 'res ':
            return B.jp2(hdr=B.ihdr() + B.colr() + B.res(B.RESC, b))
        if where == 'uinf':
            return B.jp2(after=B.box(b'uinf', B.ULST + b, outer))
        return B.jp2(hdr=B.ihdr() + B.colr() + B.box(b'res ', b, outer))
    ref = strip(judge(R, make(4), 'jp2'))
    for e in (8, 0):
        for outer in (4, 0) if where in ('uinf', 'deep') else (4,):
            if strip(judge(R, make(e, outer), 'jp2')) != ref:
                R.fail('encoding %d in container with encoding %d: report differs from that of the same file with 32-bit lengths' % (
                    e, outer))


def type_cases(t):
    from .c20 import types
    ts = types(t)
    ts = ts if t else ts[:1296:7] + ts[1296:]

    def cases():
        for typ in ts:
            for where in range(6):
                yield typ, where
    return cases


def type_run(case, R):
    """A box of a type the tool does not know, between others and as the last one."""
    typ, where = case
    for n in (0, 9):
        def make(e):
            b = B.box(typ, b'\0\0\0\x08abcdefgh'[:n], e)
            if where == 0:
                return B.jp2(before=b)
            if where == 1:
                return B.jp2(mid=b)
            if where == 2:
                return B.jp2(after=b + B.XMLBOX)
            if where == 3:
                return B.jp2(hdr=B.ihdr() + B.colr() + b + B.res(B.RESC))
            if where == 4:
                return B.jp2(hdr=B.ihdr() + B.colr() + B.res(b, B.RESC))
            return B.jp2(after=B.box(b'uinf', B.ULST + b + B.URL) + b)
        ref = strip(judge(R, make(4), 'jp2'))
        if strip(judge(R, make(8), 'jp2')) != ref:
            R.fail('report differs from that of the same file with 32-bit lengths')


def wrong(t):
    """Lengths that do not fit: both encodings must be understood alike (contents end with the container)."""
    def cases():
        for fmt in ('jp2',):
            for pos in range(6):
                for d in tuple(range(-40, 41)) + (255, 65536, 2 ** 31, 2 ** 32 - 200):
                    yield fmt, pos, d
    return cases


def wrong_run(case, R):
    fmt, pos, d = case
    parts = [(b'jP  ', b'\r\n\x87\n'), (b'ftyp', b'jp2 \0\0\0\0jp2 '), (b'jp2h', B.ihdr() + B.colr()),
             (b'uuid', B.UUID1 + b'abcdef'), (b'jp2c', B.codestream()), (b'xml ', B.XML)]
    for ext in (False, True):
        out = b''
        for i, (typ, c) in enumerate(parts):
            n = 8 + len(c) + (8 if ext and i == pos else 0)
            if i == pos:
                n = max(n + d, 0)
                if ext:
                    out += b'\0\0\0\1' + typ + n.to_bytes(8, 'big') + c
                else:
                    out += (n & 0xffffffff).to_bytes(4, 'big') + typ + c
            else:
                out += B.box(typ, c)
        judge(R, out, fmt)


def huge():
    """Values of the extended length field, every bit."""
    for bit in range(64):
        for base in (0, 16, 24):
            yield bit, base


def huge_run(case, R):
    bit, base = case
    n = base | 1 << bit
    for tail in (b'', B.XMLBOX):
        judge(R, B.jp2(after=b'\0\0\0\1uuid' + n.to_bytes(8, 'big') + B.UUID1 + b'abcd' + tail), 'jp2')


def spaces(tier):
    t = tier == 'thorough'
    return [
        FnSpace('encodings', 'all assignments of length encodings to all boxes at all levels of 11 files, 2 formats',
                cases_of(12 if t else 9), run),
        FnSpace('sizes', 'boxes of 6 types with contents of sizes around powers of two and ten up to %d MB' % (16 if t else 1), sizes(t), size_run),
        FnSpace('last boxes', 'every box type, last in every kind of container, contents cut and extended to every length',
                last(t), last_run),
        FnSpace('features', 'files with optional parts of every kind, every box re-encoded, all re-encoded', feature_cases(t), feature_run),
        FnSpace('unknown types', 'boxes of unknown types between others, in every kind of container', type_cases(t), type_run),
        FnSpace('wrong lengths', 'box lengths off by -40..40 and far, both encodings', wrong(t), wrong_run),
        FnSpace('extended length bits', 'every bit of the extended length', huge, huge_run),
    ], ['length zero is used for the last box of its container only']
