"""Sizes around every power of two (and of ten): repetition counts, lengths and indices far beyond those of the other spaces.

Every repeatable or variable-length structure is built with n items, a rule violated (or a distinguished value placed) at the first,
middle or last item, and compared with the reference model. The smaller spaces settle how items interact; these settle that nothing
changes when there are many of them.
"""
from struct import pack

from . import build as B
from .common import file_space


def sizes(limit, start=4):
    """2^k - 1, 2^k, 2^k + 1 and the same around powers of ten, up to the limit."""
    out = set()
    k = start
    while k <= limit:
        out.update((k - 1, k, k + 1))
        k *= 2
    k = 10
    while k <= limit:
        out.update((k - 1, k, k + 1))
        k *= 10
    return sorted(x for x in out if x <= limit)


def marks(n):
    """None: no item is special; otherwise the index of the special one."""
    return [None] + sorted({i for i in (0, 1, n // 2, n - 2, n - 1) if 0 <= i < n})


def space(name, rule, cases, build):
    sp = file_space(name, rule + ' (counts and lengths around powers of two and ten)', cases, build)
    sp.build = build
    return sp


def below(limit, spaces):
    """Cases of these spaces with counts up to the limit, as (index of space, case)."""
    for i, sp in enumerate(spaces):
        for c in sp.cases():
            n = next(x for x in c if isinstance(x, int))
            if n <= limit:
                yield i, c


def boxes(t):
    """C02: many boxes at the top level, long compatibility lists."""
    def cases():
        for n in sizes(2100 if t else 1100):
            for c in 'XUDNI':
                for pos in (2, 3, 4):
                    yield 'jp2', c, n, pos, ''
            for late in 'SFHC':
                yield 'jp2', 'U', n, 4, late
            yield 'jph', 'U', n, 3, 'H'
        for n in sizes(20000 if t else 5000):
            for m in marks(n):
                yield 'compat', n, m

    def build(case):
        if case[0] == 'compat':
            _, n, m = case
            cl = [b'jpx '] * n
            if m is not None:
                cl[m] = b'jp2 '
            return B.SIG + B.ftyp(b'jp2 ', 0, cl) + B.jp2h(B.ihdr() + B.colr()) + B.jp2c(B.codestream()), 'jp2'
        f, c, n, pos, late = case
        ht = f == 'jph'
        let = {'S': B.SIG, 'F': B.ftyp(b'jph ' if ht else b'jp2 '), 'H': B.jp2h(B.ihdr() + B.colr()), 'C': B.jp2c(B.codestream(ht=ht)),
               'X': B.box(b'xml ', b'<a/>'), 'U': B.UNKBOX, 'D': B.UUIDBOX, 'N': B.UINF, 'I': B.JP2I}
        w = [let[x] for x in 'SFHC']
        return b''.join(w[:pos]) + let[c] * n + b''.join(w[pos:]) + (let[late] if late else b''), f
    return space('large box counts', 'up to %d boxes of one kind, late second occurrences, compatibility lists' % (2100 if t else 1100), cases, build)


def header(t):
    """C03: many sub-boxes."""
    lim = 2100 if t else 600
    let = {'c': B.colr(), 'u': B.UNKBOX, 'i': B.ihdr(), 'b': B.bpcc(7), 'p': B.box(b'pclr', B.pclr_d()), 'm': B.box(b'cmap', B.cmap_d()),
           'd': B.box(b'cdef', B.cdef_d((0, 0, 1))), 'r': B.res(B.RESC), 'x': B.XMLBOX}

    def cases():
        for n in sizes(lim):
            for f in ('jp2', 'jph'):
                for m in marks(n)[:1] + marks(n)[2:]:
                    yield 'colr', f, n, m
            for late in 'ibpmdrc':
                yield 'late', 'jp2', n, late
            for k in 'cdu':
                yield 'res', 'jp2', n, k
            for k in 'lux':
                yield 'uinf', 'jp2', n, k

    def build(case):
        kind, f, n, x = case
        if kind == 'colr':
            w = [let['c']] * n
            if x is not None:
                w[x] = let['u']
            return B.jp2(f, hdr=let['i'] + b''.join(w)), f
        if kind == 'late':
            return B.jp2(f, hdr=let['i'] + let['c'] + let['d'] + let['u'] * n + let[x]), f
        if kind == 'res':
            return B.jp2(f, hdr=let['i'] + let['c'] + B.res({'c': B.RESC, 'd': B.RESD, 'u': B.UNKBOX}[x] * n, B.RESC)), f
        return B.jp2(f, after=B.box(b'uinf', {'l': B.ULST, 'u': B.URL, 'x': B.UNKBOX}[x] * n + B.ULST + B.URL)), f
    return space('large sub-box counts', 'up to %d sub-boxes, gaps in colour specifications, late repetitions' % lim, cases, build)


def tables(t):
    """C04: long lists in header boxes."""
    lim = 16500 if t else 5000

    def cases():
        for n in sizes(lim):
            for m in marks(n):
                yield 'bpcc', n, m
                yield 'cmap', n, m
                yield 'cdef', n, m
        for n in sizes(1025):
            for cols in (1, 2, 4, 255) if n < 300 else (1, 3):
                yield 'pclr', n, cols

    def build(case):
        kind, n, m = case
        ih, col = B.ihdr(), B.colr()
        if kind == 'bpcc':
            b = B.box(b'bpcc', bytes(38 if i == m else i % 38 for i in range(n)))
        elif kind == 'cmap':
            b = B.box(b'cmap', b''.join(pack('>HBB', 16385 if i == m else i, 0 if i == m else 1, i & 255) for i in range(n)))
        elif kind == 'cdef':
            b = B.box(b'cdef', pack('>H', n) + b''.join(pack('>HHH', i, 4 if i == m else 0, i + 1) for i in range(n)))
        else:
            b = B.box(b'pclr', B.pclr_d((7,) * m, [tuple((r + c) & 255 for c in range(m)) for r in range(n)]))
        return B.jp2('jp2', hdr=ih + col + b), 'jp2'
    return space('large tables', 'component, channel and palette lists with up to %d entries, one of them out of range' % lim, cases, build)


def agreement(t):
    """C05: many components, large files."""
    lim = 16384 if t else 4200

    def cases():
        for n in sizes(lim):
            for m in marks(n):
                for how in ('comp', 'bpcc', 'plain'):
                    yield 'comps', n, m, how
        for n in sizes(1 << 24 if t else 1 << 21, 1 << 10):
            yield 'pad', n, None, ''

    def build(case):
        kind, n, m, how = case
        if kind == 'pad':
            cs = B.codestream(x=1000, y=1000, tiles=B.tilepart(data=bytes(n)))
            return B.jp2('jp2', hdr=B.ihdr(h=1000, w=1000) + B.colr(), cs=cs), 'jp2'
        cs = [7 if i != m or how == 'bpcc' else 8 for i in range(n)]
        bp = [7 if i != m or how != 'bpcc' else 8 for i in range(n)]
        hdr = B.ihdr(nc=n, bpc=7 if how == 'plain' else 255) + (b'' if how == 'plain' else B.box(b'bpcc', bytes(bp))) + B.colr()
        return B.jp2('jp2', hdr=hdr, cs=B.codestream(comps=tuple((b, 1, 1) for b in cs))), 'jp2'
    return space('large agreement', 'up to %d components with one that disagrees, files up to %d MB' % (lim, 16 if t else 2), cases, build)


def segments(t):
    """C06: many segments, long segments."""
    lim = 5000 if t else 2100

    def cases():
        for n in sizes(lim):
            for c in 'MRPUTLH':
                yield 'count', n, c
            for c in 'CK':
                for dup in (0, 1):
                    yield 'comp', n, c + str(dup)
        for n in sizes(65533) + [65532, 65533]:
            for m in (0x64, 0x55, 0x57, 0x60, 0x75, 0x56, 0x5f, 0x63):
                yield 'length', n, m

    def build(case):
        kind, n, c = case
        if kind == 'count':
            s = {'M': B.COM, 'R': B.RGN, 'P': B.POC, 'U': B.UNK, 'T': B.TLM, 'L': B.PLM, 'H': B.PPM}[c] * n
            comps = 1
        elif kind == 'comp':
            comps = max(n, 1)
            wide = comps > 256
            mk = (lambda i: B.seg(0x53, B.coc_d(i, wide))) if c[0] == 'C' else (lambda i: B.seg(0x5d, B.qcc_d(i, wide)))
            s = b''.join(mk(i) for i in range(n)) + (mk(n - 1 if n % 2 else 0) if c[1] == '1' else b'')
        else:
            comps = 1
            s = B.seg(c, b'\0\1' + b'a' * (n - 2) if c == 0x64 else bytes(n - 1) + b'\1')
        return B.codestream(comps=((7, 1, 1),) * comps, main=B.COD + s + B.QCD), 'j2c'
    return space('large main headers', 'up to %d segments of one kind, all components with their own, segments up to the greatest length' % lim,
                 cases, build)


def lists(t):
    """C07: long lists and texts in segments."""
    def cases():
        for n in sizes(65531) + [65530, 65531]:
            for r in (0, 1):
                yield 'com', n, r
        for n in sizes(65531)[::3] + [65531]:
            for p in (0, n // 2, n - 1):
                yield 'ctl', n, p
        for n in sizes(9361) + [9360, 9361]:
            if t or n < 3000 or n > 9000:
                for m in marks(n):
                    yield 'poc', n, m
        for n in sizes(7281) + [7280, 7281]:
            if t or n < 1100 or n > 7000:
                for m in marks(n):
                    yield 'pocw', n, m
        for n in sizes(16383 if t else 4100) + [16383]:
            yield 'crg', n, None
        for n in range(0, 400 if t else 220):
            for s in (0, 1, 2):
                yield 'qcd', n, s
                yield 'qcc', n, s

    def build(case):
        kind, n, m = case
        comps = 1
        if kind == 'com':
            s = B.seg(0x64, pack('>H', m) + bytes(0x20 + i % 95 for i in range(n)))
        elif kind == 'ctl':
            b = bytearray(b'a' * n)
            b[m] = 7
            s = B.seg(0x64, b'\0\1' + bytes(b))
        elif kind == 'poc':
            s = B.seg(0x5f, B.poc_d(*[(33 if i == m else i % 20, i & 127, i + 1, 33, (i & 127) + 1, i % 5) for i in range(n)]))
        elif kind == 'pocw':
            comps = 257
            s = B.seg(0x5f, B.poc_d(*[(33 if i == m else i % 20, i, i + 1, 33, i + 1, i % 5) for i in range(n)], wide=True))
        elif kind == 'crg':
            comps = n
            s = B.seg(0x63, b''.join(pack('>HH', i, 65535 - i) for i in range(n)))
        elif kind == 'qcd':
            s = B.seg(0x5c, B.qcd_d(m, 2, bytes((i * 7 + 1) & 255 for i in range(n))))
        else:
            s = B.seg(0x5d, B.qcc_d(0, False, m, 2, bytes((i * 7 + 1) & 255 for i in range(n))))
        return B.codestream(comps=((7, 1, 1),) * comps, main=B.COD + B.QCD + s), 'j2c'
    return space('large segments', 'comments, progression changes, registrations and quantization lists up to the greatest length', cases, build)


def size_segments(t):
    """C08: many components, long profile lists."""
    def cases():
        for n in sizes(16384) + [16384]:
            if t or n < 2100 or n > 16000:
                for m in marks(n):
                    for k in range(3):
                        yield 'siz', n, m, k
        for n in sizes(32766) + [32766]:
            if t or n < 1100:
                for m in marks(n):
                    yield 'prf', n, m, 0
                    yield 'cpf', n, m, 0

    def build(case):
        kind, n, m, k = case
        if kind == 'siz':
            bad = [(38, 1, 1), (7, 0, 1), (7, 1, 0)][k]
            return B.codestream(comps=[bad if i == m else (i % 38, 1 + i % 255, 1 + i % 254) for i in range(n)]), 'j2c'
        s = B.seg(0x56 if kind == 'prf' else 0x59, b''.join(pack('>H', 0 if i == m else 1 + i % 65535) for i in range(n)))
        return B.codestream(ht=True, main=B.CAP + s + B.HTCOD + B.QCD), 'jhc'
    return space('large size segments', 'up to 16384 components with one out of range, profile lists', cases, build)


def tiles(t):
    """C09: many tiles and tile-parts."""
    lim = 9000 if t else 2100

    def cases():
        for n in sizes(lim):
            for how in ('row', 'col', 'short', 'double', 'far', 'reverse'):
                yield 'tiles', n, how
        for n in sizes(lim // 2):
            for how in ('interleaved', 'blocks', 'missing', 'zero'):
                yield 'parts', n, how
        for n in (254, 255):
            for m in (10, 40):
                for how in ('interleaved', 'blocks', 'missing', 'zero'):
                    yield 'all', n, how, m
        for n in sizes(2000 if not t else 9000):
            yield 'segs', n, 'PLT'
            yield 'segs', n, 'COM'

    def build(case):
        kind, n, how = case[:3]
        g = dict(x=n, y=1, xt=1, yt=1)
        if kind == 'tiles':
            if how == 'col':
                g = dict(x=1, y=n, xt=1, yt=1)
            order = list(range(n))
            if how == 'short':
                order.pop(n // 2)
            elif how == 'double':
                order.append(n // 2)
            elif how == 'far':
                order[-1] = n
            elif how == 'reverse':
                order.reverse()
            b = b''.join(B.tilepart(i) for i in order)
        elif kind == 'parts':
            if how == 'blocks':
                w = [(i, p) for i in range(n) for p in (0, 1)]
            else:
                w = [(i, p) for p in (0, 1) for i in range(n)]
            if how == 'missing':
                w.pop()
            b = b''.join(B.tilepart(i, p, 0 if how == 'zero' else 2) for i, p in w)
        elif kind == 'all':
            m = case[3]
            g = dict(x=m, y=1, xt=1, yt=1)
            w = [(i, p) for i in range(m) for p in range(n)] if how == 'blocks' else [(i, p) for p in range(n) for i in range(m)]
            if how == 'missing':
                w.pop()
            b = b''.join(B.tilepart(i, p, 0 if how == 'zero' else n) for i, p in w)
        else:
            g = dict(x=4, y=4)
            b = B.tilepart(segs=(B.PLT if how == 'PLT' else B.COM) * n)
        return B.codestream(tiles=b, **g), 'j2c'
    return space('large tile counts', 'up to %d tiles and %d tile-parts, in order, interleaved, missing, doubled; many segments' % (lim, 255 * 40),
                 cases, build)


def metadata(t):
    """C19: large XML, UUID and URL contents."""
    lim = 1 << (24 if t else 21)

    def cases():
        for n in sizes(lim, 64):
            for where in (0, 1):
                yield 'text', n, where
            if n < (1 << 18 if t else 1 << 15):
                for where in (0, 1):
                    yield 'elements', n, where
                    yield 'bad', n, where
                    yield 'null', n, where
            yield 'uuid', n, 0
            yield 'url', n, 0
        for n in sizes(4097 if not t else 65535):
            for m in (0, 1):
                yield 'ulst', n, m

    def build(case):
        kind, n, where = case
        o = {}
        if kind == 'ulst':
            p = pack('>H', n) + bytes((i * 11 + i // 16) & 255 for i in range(16 * n - where))
            return B.jp2(after=B.box(b'uinf', B.box(b'ulst', p) + B.URL)), 'jp2'
        if kind == 'uuid':
            return B.jp2(after=B.box(b'uuid', B.UUID1 + bytes(n))), 'jp2'
        if kind == 'url':
            return B.jp2(after=B.box(b'uinf', B.ULST + B.box(b'url ', bytes(4) + b'u' * n + b'\0'))), 'jp2'
        if kind == 'text':
            x = b'<a>' + b'x' * (n - 7) + b'</a>'
        else:
            x = b'<a>' + b''.join(b'<b c="%d"/>' % i for i in range(n)) + {'elements': b'</a>', 'bad': b'</b>', 'null': b'</a>\0'}[kind]
            o = dict(nullxml=True)
        return B.jp2(after=B.box(b'uuid', B.XMP + x) if where else B.box(b'xml ', x)), 'jp2', o
    return space('large metadata', 'XML, UUID and URL contents up to %d MB, lists with up to %d entries' % (lim >> 20, 4097 if not t else 65535),
                 cases, build)


def profiles(t):
    """C21: large profiles."""
    def cases():
        for n in sizes(4200):
            for m in marks(n):
                yield 'tags', n, m
        for n in sizes(1 << 20 if t else 1 << 17):
            yield 'desc', n, 0
            yield 'pad', n, 0
            yield 'pad', n, 1

    def build(case):
        kind, n, m = case
        if kind == 'tags':
            p = B.icc_d(tags=[b'A2B0' if i == m else b't%03d' % (i % 1000) for i in range(n)])
        elif kind == 'desc':
            p = B.icc_d(desc=b'd' * n)
        else:
            p = B.icc_d()
            p = pack('>I', len(p) + n + m) + p[4:] + bytes(n)
        return B.jp2(hdr=B.ihdr() + B.colr(meth=2, rest=p)), 'jp2'
    return space('large profiles', 'up to 4200 tags with a lookup table among them, long descriptions, padded profiles', cases, build)


def packets(t):
    """C24: long lists of packet lengths."""
    def cases():
        for n in sizes(65532) + [65531, 65532]:
            for kind in ('plt', 'plm') if n < 256 else ('plt',):
                for how in ('ones', 'two', 'long', 'open'):
                    yield kind, n, how
        for n in range(1, 70 if not t else 400):
            for v in (0, 1, 127):
                yield 'value', n, v

    def build(case):
        kind, n, how = case
        if kind == 'value':
            p = bytes((0x80 | how,)) * (n - 1) + bytes((how,)) + b'\5'
            kind = 'plt' if n % 2 or n > 250 else 'plm'
        elif how == 'ones':
            p = bytes(i & 127 for i in range(n))
        elif how == 'two':
            p = (b'\x81\x02' * n)[:n]
        elif how == 'long':
            p = (b'\x9f\xff\xff\x7f' * n)[:n]
        else:
            p = b'\1' * (n - 1) + b'\x81'
        if kind == 'plm':
            return B.codestream(main=B.COD + B.QCD + B.seg(0x57, b'\0' + bytes((len(p),)) + p)), 'j2c', dict(packetmarkers=True)
        return B.codestream(tiles=B.tilepart(segs=B.seg(0x58, b'\0' + p))), 'j2c', dict(packetmarkers=True)
    return space('large packet lists', 'lists up to the greatest segment length, values of up to %d bytes' % (70 if not t else 400), cases, build)
