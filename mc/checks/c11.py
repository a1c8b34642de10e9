"""Every input yields a complete report in bounded time"""
import itertools
import sys
import xml.etree.ElementTree as XET
from xml.dom import minidom

from .. import build as B
from .. import compare, corpus, faults, features, impl, spec
from ..common import BYTE_EDGE, FORMATS, FnSpace, count_units, patch, sequences
from ..engine import Space


LIMIT = [None]            # announced components above which an input is left to the thorough tier


def heavy(data):
    """The image size segment announces so many components that the report gets huge."""
    if LIMIT[0] is None:
        return False
    i = data.find(b'\xff\x51')
    n = int.from_bytes(data[i + 38:i + 40], 'big')
    return i >= 0 and n > LIMIT[0]


def complete(R, data, fmt, verbose=True, pm=True, nullxml=True, mix=2, model=True, pretty=False):
    """Analysis succeeds, report is complete, can be written as XML, and agrees with the reference model."""
    R.file('input.' + fmt, data)
    elt = impl.call(impl.put(data), fmt, verbose, pm, nullxml, mix)
    R.execs += 1
    R.state(data, fmt, verbose, pm, nullxml, mix)
    text = impl.to_text(elt)
    text.encode('utf-8')
    rep = impl.Report(XET.fromstring(text))
    if pretty:
        minidom.parseString(text).toprettyxml('    ')
    R.outcome(rep.key())
    if rep.success != 'True' or rep.failure is not None:
        R.fail('[%s] analysis failed: %s' % (fmt, rep.failure))
    if rep.valid not in ('True', 'False') or rep.format != fmt:
        R.fail('[%s] verdict %s format %s' % (fmt, rep.valid, rep.format))
    order = [e.tag for e in rep.root]
    want = ['fileInfo', 'statusInfo', 'isValid', 'tests', 'properties'] + \
        (['propertiesExtension'] if mix else []) + ['warnings']
    if order != want:
        R.fail('[%s] parts of report: %s' % (fmt, order))
    if model and not R._msgs:
        exp = spec.expect(data, fmt, pm, nullxml)
        R.traces += 1
        R.steps += count_units(exp)
        for d in compare.full(rep, exp, verbose, fmt):
            R.fail('[%s] %s' % (fmt, d))
    return rep


def short_strings(t):
    """All byte strings of length 0, 1 and 2; longer ones over bytes with a meaning."""
    def cases():
        for n in range(3 if t else 2):
            for s in itertools.product(range(256), repeat=n):
                yield bytes(s)
        if not t:
            for a in (0, 1, 0x4f, 0x6a, 0xff):
                for b in range(256):
                    yield bytes((a, b))
                    yield bytes((b, a))
        alpha = (0, 1, 8, 0x4f, 0x51, 0x90, 0x93, 0xd9, 0xff)
        for n in range(3, 6 if t else 5):
            for s in itertools.product(alpha, repeat=n):
                yield bytes(s)
    return cases


def short_run(case, R):
    for f in FORMATS:
        complete(R, case, f, pretty=len(case) < 2)


def box_heads():
    """Box headers: every combination of length field, type and available data."""
    lens = [0, 1, 2, 7, 8, 9, 12, 15, 16, 17, 24, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    xl = [0, 1, 7, 8, 15, 16, 17, 24, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
    types = sorted(spec.BOXES) + [b'\0\0\0\0', b'abcd', b'\xff\xff\xff\xff', b'\xff\x51\0\0', b'<&>"', b'\xc3\xa9\xc3\xa9']
    for typ in types:
        for n in lens:
            for avail in (0, 1, 4, 8, 20):
                if n == 1:
                    for x in xl:
                        yield n.to_bytes(4, 'big') + typ + x.to_bytes(8, 'big') + bytes(range(avail))
                    yield n.to_bytes(4, 'big') + typ + bytes(avail)
                else:
                    yield n.to_bytes(4, 'big') + typ + bytes(range(avail))


def head_run(case, R):
    complete(R, case, 'jp2')
    complete(R, B.jp2(hdr=B.ihdr() + case + B.colr()), 'jph')
    complete(R, B.SIG + case, 'jp2')


def seg_heads():
    lens = (0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 20, 38, 41, 255, 256, 65535 if LIMIT[0] is None else 300)
    for m in sorted(set(x[1] for x in spec.SEG) | {0x51, 0x4f, 0x90, 0x93, 0xd9, 0x92, 0x75, 0}):
        for n in lens:
            for avail in (0, 2, 12, 45) if LIMIT[0] else (0, 1, 2, 5, 12, 45):
                for fill in (0, 0xff) if LIMIT[0] else (0, 0xff, 0x80):
                    yield m, n, avail, fill


def seg_run(case, R):
    m, n, avail, fill = case
    if LIMIT[0] and m == 0x51 and fill and (n, avail) not in ((41, 45), (38, 12)):
        return
    s = bytes((255, m)) + n.to_bytes(2, 'big') + bytes((fill,)) * avail
    complete(R, B.SOC + B.siz() + s, 'j2c')
    complete(R, B.codestream(main=s + B.COD + B.QCD), 'j2c')
    complete(R, B.codestream(ht=True, tiles=B.tilepart(segs=s)), 'jhc')
    complete(R, s + B.codestream(), 'j2c')
    complete(R, B.SOC + s + B.codestream(), 'jhc')


class Faults(Space):
    """k-byte overwrites of structured files."""
    def __init__(self, name, files, values, k, window=None, formats=None):
        self.files, self.values, self.k, self.window = files, values, k, window
        self.name = name
        self.rule = '%s overwritten bytes of %d files, values %s' % (
            'every single' if k == 1 else 'every pair of (distance at most %s)' % window, len(files),
            'all 256' if len(values) == 256 else list(values))

    def cases(self):
        for n in self.files:
            d = self.files[n][1]
            if self.k == 1:
                for p in range(len(d)):
                    for v in self.values:
                        if v != d[p]:
                            yield n, ((p, v),)
            else:
                for p in range(len(d)):
                    for q in range(p + 1, min(len(d), p + self.window + 1)):
                        for v in self.values:
                            for w in self.values:
                                yield n, ((p, v), (q, w))

    def run(self, case, R):
        n, fl = case
        d = patch(self.files[n][1], fl)
        if self.k > 1 and LIMIT[0] is not None:
            i = d.find(b'\xff\x51')
            if i >= 0 and any(p == i + 38 for p, _ in fl):
                return
        if not heavy(d):
            complete(R, d, self.files[n][0])

    def show(self, case):
        return '%s with %s' % case


class Words(Space):
    """Pairs of aligned fields overwritten, at any distance."""
    def __init__(self, files, values):
        self.files, self.values = files, values
        self.name = 'double word faults'
        self.rule = 'every pair of aligned two- and four-byte words (any distance) of %d places in files set to %s' % (
            len(files), [hex(v) for v in values])

    def cases(self):
        for n in self.files:
            d, a, b = self.files[n][1:]
            at = [(p, w) for w in (2, 4) for p in range(a, b - w + 1, w)]
            for i, x in enumerate(at):
                for y in at[i + 1:]:
                    if x[0] + x[1] <= y[0] or y[0] + y[1] <= x[0]:
                        for v in self.values:
                            for w in self.values:
                                yield n, x, v, y, w

    def run(self, case, R):
        n, x, v, y, w = case
        f, d = self.files[n][:2]
        for (p, k), z in ((x, v), (y, w)):
            d = d[:p] + (z >> 8 * (4 - k)).to_bytes(k, 'big') + d[p + k:]
        if not heavy(d):
            complete(R, d, f)

    def show(self, case):
        n, x, v, y, w = case
        return '%s with %d bytes at %d set to %x, %d at %d set to %x' % (n, x[1], x[0], v, y[1], y[0], w)


def places(v, t):
    """Parts of files, from the first byte of a box contents or segment on so that fields are aligned."""
    out = {}

    def add(name, key, mark, skip, n):
        f, d = v[key]
        i = d.index(mark) + len(mark) + skip
        out[name] = (f, d, i, min(len(d), i + n))
    add('icc header', 'jp2-icc', b'colr', 3, 400 if t else 148)
    if not t:
        f, d, a, b = out['icc header']
        # header fields of interest only: size to class, and tag table
        out['icc size'] = (f, d, a, a + 16)
        out['icc tags'] = (f, d, a + 124, min(len(d), a + 172))
        del out['icc header']
    add('image size', 'jp2', b'\xff\x51', 0, 42)
    add('image header', 'jp2', b'ihdr', 0, 14)
    add('coding', 'jp2', b'\xff\x52', 0, 60)
    if t:
        add('whole', 'jp2', b'jP  ', 0, 200)
        add('coding ht', 'jhc', b'\xff\x50', 0, 90)
        add('boxes', 'jp2-rich', b'jp2h', -4, 200)
    return out


def icc_pairs(t):
    """The fields of a profile that other fields refer to, all damaged together."""
    big = (0, 1, 127, 128, 132, 144, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)
    for size in big + (None, 9999) if t else (None, 0, 128, 9999, 2 ** 32 - 1):
        for count in big + (None, 4096, 4097, 65536) if t else (None, 0, 2, 65536, 2 ** 32 - 1):
            for off in big + (None, 10 ** 4) if t else (None, 0, 131, 10 ** 4, 2 ** 31, 2 ** 32 - 1):
                for tsize in (0, 1, 12, None, 2 ** 31, 2 ** 32 - 1) if t else (0, None, 2 ** 32 - 1):
                    yield size, count, off, tsize


def icc_run(case, R):
    size, count, off, tsize = case
    p = B.icc_d(desc=b'name')
    for i, v in ((0, size), (128, count), (136, off), (140, tsize)):
        if v is not None:
            p = p[:i] + v.to_bytes(4, 'big') + p[i + 4:]
    complete(R, B.jp2(hdr=B.ihdr() + B.colr(meth=2, rest=p)), 'jp2')
    complete(R, B.jp2(hdr=B.ihdr() + B.colr(meth=3, rest=p[:-3]), fmt='jph'), 'jph')


class Splices(Space):
    """Bytes removed, doubled or inserted."""
    def __init__(self, files, lens):
        self.files, self.lens = files, lens
        self.name = 'splices'
        self.rule = 'every range of %s bytes removed, doubled, or inserted (00, ff) at every position' % (list(lens),)

    def cases(self):
        for n in self.files:
            d = self.files[n][1]
            for p in range(len(d) + 1):
                for l in self.lens:
                    for op in ('del', 'dup', 'zero', 'ones'):
                        yield n, p, l, op

    def run(self, case, R):
        n, p, l, op = case
        d = self.files[n][1]
        if op == 'del':
            d = d[:p] + d[p + l:]
        elif op == 'dup':
            d = d[:p + l] + d[p:]
        else:
            d = d[:p] + (b'\0' if op == 'zero' else b'\xff') * l + d[p:]
        if heavy(d):
            return
        complete(R, d, self.files[n][0])


def cross(case, R):
    """Every file in every format with every option."""
    n, fmt, v, pm, nx, mix = case
    complete(R, corpus.everything()[n][1], fmt, v, pm, nx, mix, pretty=True)


def cross_cases():
    for n in corpus.everything():
        for c in itertools.product(FORMATS, (False, True), (False, True), (False, True), (0, 1, 2)):
            yield (n,) + c


def texts(t):
    """Text fields with every byte value and with multi-byte sequences: XML must stay writable."""
    def cases():
        seqs = [bytes((b,)) for b in range(256)] + [b'\xc2' + bytes((b,)) for b in range(0x80, 0xc0)]
        seqs += [b'\xef\xbf' + bytes((b,)) for b in range(0x80, 0xc0)] + [b'\xed' + bytes((a, 0x80)) for a in range(0x80, 0xc0)]
        seqs += [b'\xf0\x9f\x98\x80', b'\xf4\x8f\xbf\xbf', b'\xe2\x80\xa8', b'\xe2\x80\x8b', b'\xef\xb7\x90', b']]>', b'&amp;',
                 b'\xf0\x9f\xbf\xbe', b'\xf0\x9f\xbf\xbf']
        for s in seqs:
            for where in range(6):
                yield s, where
    return cases


def text_run(case, R):
    s, w = case
    pad = s.ljust(4, b'a')[:4]
    if w == 0:
        d = B.jp2(after=B.box(pad, b'x'))
    elif w == 1:
        d = B.SIG + B.ftyp(pad, 0, [pad, b'jp2 ']) + B.jp2h(B.ihdr(), B.colr()) + B.jp2c(B.codestream())
    elif w == 2:
        d = B.jp2(cs=B.codestream(main=B.COD + B.QCD + B.seg(0x64, b'\0\1' + s)))
    elif w == 3:
        d = B.jp2(after=B.box(b'uinf', B.ULST + B.box(b'url ', b'\0\0\0\0' + s + b'\0')))
    elif w == 4:
        d = B.jp2(hdr=B.ihdr() + B.colr(meth=2, rest=B.icc_d(cmm=pad, manu=pad, desc=b'x' + s + b'y')))
    else:
        d = B.jp2(after=B.box(b'xml ', b'<a b="' + s + b'">' + s + b'</a>') if s not in (b'<', b'"', b'&') else b'')
    complete(R, d, 'jp2', model=w != 5, pretty=True)


class Nesting(Space):
    """Deep nesting of boxes and of XML elements."""
    name = 'nesting'
    rule = 'superboxes and XML elements nested up to 120 and 200 levels deep, and far beyond (known finding)'
    kinds = (b'jp2h', b'res ', b'uinf', 'xml', 'xmp')

    def cases(self):
        for k in self.kinds:
            for n in (1, 2, 3, 10, 50, 100, 200 if isinstance(k, str) else 120):
                yield k, n
        for k in self.kinds:
            yield k, 5000

    def run(self, case, R):
        k, n = case
        if isinstance(k, bytes):
            d = B.ihdr() if k == b'jp2h' else B.RESC if k == b'res ' else B.ULST + B.URL
            for _ in range(n):
                d = B.box(k, d)
            d = B.SIG + B.ftyp() + d
        else:
            x = b'<a>' * n + b'</a>' * n
            d = B.jp2(after=B.box(b'xml ', x) if k == 'xml' else B.box(b'uuid', B.XMP + x))
        complete(R, d, 'jp2', model=n <= 100, pretty=n <= 200)

    def known(self, case):
        k, n = case
        if n >= 5000:
            return 'deep-boxes' if isinstance(k, bytes) else 'deep-xml'
        return None

    def show(self, case):
        return '%s nested %d deep' % case


def defects(t):
    def cases():
        return faults.files(3 if t else 2, FORMATS if t else ('jp2', 'j2c'))

    def run(case, R):
        d, f = faults.build(case)
        complete(R, d, f)
    return FnSpace('defects', 'all combinations of at most %d defects out of 58' % (3 if t else 2), cases, run)


def large():
    for m in (0x56, 0x59, 0x5c, 0x5d, 0x5f, 0x64, 0x57, 0x60, 0x52, 0x50, 0x63):
        for fill in (0, 1, 0x80, 0xff):
            yield m, fill


def large_run(case, R):
    m, fill = case
    s = B.seg(m, bytes((fill,)) * 65533)
    complete(R, B.codestream(main=B.COD + B.QCD + s), 'j2c', model=True)
    complete(R, B.codestream(ht=True, tiles=B.tilepart(segs=B.seg(0x58 if m == 0x57 else m, s[4:]))), 'jhc')


def spaces(tier):
    t = tier == 'thorough'
    LIMIT[0] = None if t else 600
    v = corpus.valid()
    some = {k: v[k] for k in (('jp2', 'jhc', 'jp2-icc', 'jp2-bpcc', 'jph-param') if t else ('jp2',))}
    rich = {k: v[k] for k in (('jp2-rich', 'jph-rich', 'jp2-icc', 'j2c-many') if t else ('jp2-rich', 'jp2-icc'))}
    small = {k: v[k] for k in ('jp2', 'jhc')}
    return [
        FnSpace('short strings', 'all byte strings up to length %d, longer ones over structural bytes, 4 formats' % (
            2 if t else 1), short_strings(t), short_run),
        FnSpace('box headers', 'length x extended length x type x available data', box_heads, head_run),
        FnSpace('segment headers', 'marker x length x available data, at five places', seg_heads, seg_run),
        Faults('byte faults', some, tuple(range(256)), 1),
        Faults('byte faults rich', rich, tuple(range(256)) if t else (0, 1, 9, 128, 255), 1),
        Faults('double faults', small, (0, 1, 128, 255) if t else (0, 255), 2, 400 if t else 12),
        Words(places(v, t), (0, 2 ** 31, 2 ** 32 - 1) if t else (0, 2 ** 32 - 1)),
        FnSpace('profile fields', 'profile size x tag count x tag offset x tag size', lambda: icc_pairs(t), icc_run),
        Splices({k: v[k] for k in (('jp2', 'jhc', 'jp2-rich', 'jp2-icc') if t else ('jp2', 'jhc'))},
                (1, 2, 3, 4, 8, 16) if t else (1, 4)),
        FnSpace('formats and options', 'every corpus file in every format with every option combination', cross_cases, cross),
        FnSpace('text bytes', 'every byte value and encoded character in every text field', texts(t), text_run),
        FnSpace('large segments', 'segments of maximum size', large, large_run),
        Nesting(), defects(t),
        FnSpace('features', 'all files that combine at most 2 features, all options set', lambda: features.vectors(tuple(
            d for d in features.ALL if d not in features.OPTIONS[1:]), 2), lambda c, R: complete(R, *features.build(c)[:2])),
    ], ['CPU limit per input %d s, memory limit 3 GB' % 40, 'box nesting up to 120 and XML nesting up to 200 levels; '
        'beyond the recursion limit of the interpreter see KNOWN_FINDINGS.txt']
