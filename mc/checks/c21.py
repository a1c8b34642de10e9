"""Colour specification and ICC profile reported and checked"""
import itertools
from struct import pack

from .. import build as B
from .. import features as F
from .. import scale
from ..common import BYTE_EDGE, content_space, deviations, file_space

FMT = ('jp2', 'jph')
E32 = (0, 1, 15, 16, 17, 18, 19, 255, 256, 0x11000000, 0x00110000, 2 ** 31, 2 ** 32 - 1)
CLASSES = (b'scnr', b'mntr', b'prtr', b'link', b'spac', b'abst', b'nmcl', b'SCNR', b'mntr'[::-1], bytes(4), b'\xff\xfe\xfd\xfc', b'mnt ')
TAGS = (b'A2B0', b'A2B1', b'B2A0', b'A2B\0', b'a2b0', b'desc', b'cprt', b'wtpt', b'0B2A')


def header(payload, fmt, extra=b''):
    return B.jp2(fmt, hdr=B.ihdr() + B.box(b'colr', payload) + extra)


def place(p, fmt, b):
    return header(p, fmt)


def fields(t):
    def cases():
        for fmt in FMT:
            for m in range(256):
                for p, a in ((0, 0), (1, 0), (0, 1), (255, 255)):
                    for r in (b'', pack('>I', 17), B.icc_d(), pack('>HHHB', 1, 2, 4, 128), b'\0'):
                        yield fmt, m, p, a, r
            for p, a in itertools.product(BYTE_EDGE, repeat=2):
                for m in (1, 2, 3, 5):
                    yield fmt, m, p, a, pack('>I', 16)
            for v in range(256):
                for m in (0, 1, 2, 3, 4, 5, 6):
                    yield fmt, m, v, 0, pack('>I', 17)
                    yield fmt, m, 0, v, pack('>I', 18)

    def build(c):
        fmt, m, p, a, r = c
        return header(pack('>BBB', m, p, a) + r, fmt), fmt
    return file_space('method, precedence, approximation', 'all values of each field, with 5 kinds of contents, 2 formats', cases, build)


def enums(t):
    def cases():
        for fmt in FMT:
            for v in tuple(range(0, 66000 if t else 300)) + E32 + tuple((1 << k) + d for k in range(32) for d in (-1, 0, 1, 16, 17, 18)):
                yield fmt, v & 0xffffffff, 4
            for v in (16, 17, 18, 19, 0):
                for n in range(0, 12):
                    yield fmt, v, n

    def build(c):
        fmt, v, n = c
        return header(b'\1\0\0' + (pack('>I', v) + bytes(range(8)))[:n], fmt), fmt
    return file_space('enumerated colour spaces', 'values up to %d, around powers of two, and lengths 0 to 11' % (66000 if t else 300), cases, build)


def params(t):
    def cases():
        for fmt in FMT:
            for i in range(3):
                for v in tuple(range(0, 4096 if t else 300)) + (511, 512, 1023, 1024, 32767, 32768, 65534, 65535):
                    x = [1, 2, 4]
                    x[i] = v
                    yield fmt, tuple(x), 128, 7
            for v in range(256):
                yield fmt, (9, 16, 9), v, 7
            few = (0, 1, 2, 3, 4, 12, 13, 14, 15, 18, 19, 22, 23)
            for x in itertools.product(few, repeat=3 if t else 2):
                yield fmt, (x + (0,))[:3], 0, 7
            for n in range(0, 12):
                yield fmt, (1, 2, 4), 255, n

    def build(c):
        fmt, x, v, n = c
        return header(b'\5\0\0' + (pack('>HHHB', *x, v) + bytes(8))[:n], fmt), fmt
    return file_space('parameterised colour', 'each parameter over 0 to %d, all full range bytes, combinations, lengths 0 to 11' % (
        4095 if t else 299), cases, build)


def icc_vectors(k):
    dom = dict(
        meth=(2, 3), fmt=FMT, dsize=(0, 1, -1, 256, -1000), cls=(b'mntr',) + CLASSES,
        space=(b'RGB ', b'GRAY', b'CMYK', bytes(4), b'\xff\xff\xff\xff'), pcs=(b'XYZ ', b'Lab ', b'\0a\0b'),
        ver=(b'\x02\x10\0\0', b'\x04\x20\0\0', b'\x00\x00\0\0', b'\xff\xff\xff\xff', b'\x02\x0f\1\1'),
        date=((2001, 2, 3, 4, 5, 6), (0, 0, 0, 0, 0, 0), (65535, 12, 31, 23, 59, 59), (1999, 10, 11, 12, 13, 14)),
        flags=(0, 1, 2, 3, 0x80000000, 0x40000000, 0xffffffff, 0x00010000),
        attr=(0, 1, 2, 4, 8, 15, 1 << 63, 1 << 60, (1 << 64) - 1, 1 << 32),
        intent=(0, 1, 2, 3, 4, 255, 256, 65535), ill=((63190, 65536, 54061), (0, 0, 0), (1, 2, 3), (0x7fffffff, 65535, 32768)),
        manu=(b'ABCD', bytes(4), b'\xc3\xa9xy', b'\xff\xfe\xfd\xfc', b'a\0b\0'), model=(b'EFGH', b'\x01\x02\x03\x04'),
        cmm=(b'lcms', bytes(4), b'    '), creator=(b'lcms', b'\x80\x81\x82\x83'), plat=(b'APPL', b'MSFT', bytes(4), b'xxxx'),
        sig=(b'acsp', b'ACSP', bytes(4)), pid=(bytes(16), bytes(range(240, 256))),
        tags=((), (b'A2B0',), (b'wtpt', b'A2B0'), (b'A2B1', b'B2A0'), (b'a2b0',), (b'cprt',) * 5),
        desc=(b'sRGB', None, b'', b'x' * 300, b'\xc3\xa9', b'\xff\xfe', b'a\0b', b'<&>'))
    names = list(dom)

    def cases():
        for v in deviations(list(dom.values()), k):
            yield v

    def build(c):
        f = dict(zip(names, c))
        fmt, meth, ds = f.pop('fmt'), f.pop('meth'), f.pop('dsize')
        p = B.icc_d(**f)
        p = pack('>I', (len(p) + ds) & 0xffffffff) + p[4:]
        return header(bytes((meth, 0, 0)) + p, fmt), fmt
    return file_space('profile fields', 'vectors of %d profile fields that deviate from a valid profile in at most %d places' % (len(names), k),
                      cases, build)


def tag_tables(t):
    depth = 4 if t else 3

    def cases():
        for n in range(depth + 1):
            for s in itertools.product(TAGS, repeat=n):
                yield s, n, 0
        for n in (0, 1, 2, 3, 10, 100, 400):
            for d in (-2, -1, 0, 1, 2, 5):
                if n + d >= 0:
                    yield (b'wtpt',) * n, n + d, 0
        for i in range(1, 40):                      # where the lookup table tag stands does not matter
            for j in range(i):
                yield tuple(b'A2B0' if k == j else b'tag' + bytes((65 + k,)) for k in range(i)), i, 0
        for cut in range(0, 40):                    # profile cut off within the table
            yield (b'wtpt', b'A2B0', b'desc'), 3, cut

    def build(c):
        tags, n, cut = c
        p = bytearray(B.icc_d(tags=tags, desc=None))
        p[128:132] = pack('>I', n)
        p = bytes(p) + b'desc' + bytes(8)
        if cut:
            p = p[:132 + 36 - cut]
        p = pack('>I', len(p)) + p[4:]
        fmt = FMT[len(tags) % 2]
        return header(bytes((2 + (n % 3 == 1), 0, 0)) + p, fmt), fmt
    return file_space('tag tables', 'all tables of up to %d tags out of %d, announced counts, positions of the lookup table tag, truncation'
                      % (depth, len(TAGS)), cases, build)


def descriptions(t):
    """Offset, size and length of the description tag."""
    def cases():
        for off in tuple(range(120, 170)) + (0, 1, 4, 131, 132, 144, 200, 1000, 2 ** 31, 2 ** 32 - 1):
            for size in (0, 1, 8, 11, 12, 13, 16, 17, 20, 90, 2 ** 32 - 1):
                for n in (0, 1, 2, 4, 5, 6, 100, 2 ** 31, 2 ** 32 - 1):
                    yield off, size, n
        for n in range(0, 30):
            yield 144, 90, n

    def build(c):
        off, size, n = c
        p = bytearray(B.icc_d(desc=b'sRGB', size=0))
        p[136:144] = pack('>II', off, size)
        p[152:156] = pack('>I', n)
        return header(b'\2\0\0' + bytes(p), FMT[size % 2]), FMT[size % 2]
    return file_space('description tag', 'offsets, sizes and text lengths of the description, in and out of the profile', cases, build)


def several(t):
    """Sequences of colour specification boxes."""
    bs = {'e': B.colr(), 'g': B.colr(cs=16), 'x': B.colr(cs=12), 'i': B.colr(meth=2, rest=B.icc_d()),
          'l': B.colr(meth=2, rest=B.icc_d(tags=(b'A2B0',))), 'a': B.colr(meth=3, rest=B.icc_d(cls=b'prtr')),
          'p': B.colr(meth=5, rest=pack('>HHHB', 1, 2, 4, 0)), 's': B.box(b'colr', b''), 'v': B.colr(meth=4, prec=2, approx=4), 'u': B.UNKBOX}

    def cases():
        for n in range(0, 5 if t else 4):
            for s in itertools.product(bs, repeat=n):
                for fmt in FMT:
                    yield ''.join(s), fmt

    def build(c):
        s, fmt = c
        return B.jp2(fmt, hdr=B.ihdr() + b''.join(bs[x] for x in s)), fmt, dict(verbose=len(s) % 2 == 1)
    return file_space('several boxes', 'all sequences of up to %d colour specification boxes of 9 kinds, 2 formats' % (4 if t else 3), cases, build)


def spaces(tier):
    t = tier == 'thorough'
    meth1 = b'\1\0\0' + pack('>I', 17)
    icc2 = b'\2\0\0' + B.icc_d(tags=(b'wtpt',))
    icc3 = b'\3\0\0' + B.icc_d(tags=(b'A2B0',), cls=b'prtr')
    par = b'\5\0\0' + pack('>HHHB', 1, 2, 4, 128)
    vals = range(256) if t else BYTE_EDGE
    heavy = {3 + 128: (0, 1), 3 + 129: (0, 1), 3 + 130: (0, 1), 3 + 131: range(256)}
    out = [F.space('features', ('fmt', 'colr', 'gap', 'hunk', 'iunk', 'ibpc', 'bpcc', 'pclr', 'cmap', 'cdef', 'comps', 'before', 'mid', 'henc'), 3),
           fields(t), enums(t), params(t), icc_vectors(3 if t else 2), tag_tables(t), descriptions(t), several(t),
           content_space('bytes of short boxes', 'every byte, pairs over edge values, every length', [meth1, par], place, FMT,
                         pairs=BYTE_EDGE if t else (0, 1, 2, 3, 5, 16, 17, 128, 255), extend=6),
           content_space('profile bytes', 'every byte of two profiles set to %d values, every length' % len(vals), [icc2, icc3], place, FMT,
                         single=vals, heavy=heavy),
           content_space('profile byte pairs', 'adjacent bytes', [icc2], place, FMT[:1], single=(0,), pairs=(0, 32, 65, 127, 128, 255) if t else (0, 128),
                         pair_window=2 if t else 1, heavy=heavy, verbose=False)]
    out.append(scale.profiles(t))
    return out, ['fields of a profile cut off in the middle, illuminants with the top bit set and descriptions without a length are not specified',
                 'profiles announcing more than 4096 tags are limited to that many']
