"""Header superbox structure decides validity"""
from .. import build as B
from .. import features as F
from .. import scale
from ..common import file_space, sequences
from .c02 import edits

FMT = ('jp2', 'jph')
LET = {
    'i': B.ihdr(),
    'v': B.ihdr(bpc=255),                        # depths vary: bits per component box needed
    'k': B.ihdr(unk=1),                          # colour space unknown
    'c': B.colr(),
    's': B.colr(cs=16),
    'b': B.bpcc(7),
    'p': B.box(b'pclr', B.pclr_d()),
    'm': B.box(b'cmap', B.cmap_d()),
    'd': B.box(b'cdef', B.cdef_d((0, 0, 1))),
    'e': B.box(b'cdef', B.cdef_d((0, 1, 0))),    # no colour channel
    'r': B.res(B.RESC),
    'u': B.UNKBOX,
    'x': B.XMLBOX,
    'j': B.jp2h(B.ihdr(unk=1), B.colr()),        # nested
    'z': B.box(b'free'),
    'g': B.SIG,
    'q': B.RESC,                                 # resolution box without its superbox
}
RES = {
    'c': B.RESC, 'd': B.RESD, 'C': B.box(b'resc', B.res_d(1, 2, 3, 4, 5, 6)), 'u': B.UNKBOX,
    'n': B.res(B.RESC), 'i': B.ihdr(), 'b': B.box(b'resc', B.res_d(0, 0, 1, 1)),
}
UINF = {
    'l': B.ULST, 'u': B.URL, 'x': B.UNKBOX, 'L': B.box(b'ulst', b'\0\0'), 'U': B.box(b'url ', b'\0\0\0\0a'),
    'n': B.UINF, 'd': B.UUIDBOX,
}


def header(case):
    fmt, w = case
    return B.jp2(fmt, hdr=b''.join(LET[c] for c in w)), fmt


def resolution(case):
    fmt, w = case
    return B.jp2(fmt, hdr=B.ihdr() + B.colr() + B.res(*[RES[c] for c in w])), fmt


def uinf(case):
    fmt, w = case
    return B.jp2(fmt, after=B.box(b'uinf', b''.join(UINF[c] for c in w))), fmt


def words(alpha, depth):
    def cases():
        for w in sequences(alpha, depth):
            for f in FMT:
                yield f, ''.join(w)
    return cases


def edited(start, letters, k):
    def cases():
        seen, frontier = set(start), list(start)
        for n in range(k + 1):
            for w in frontier:
                for f in FMT:
                    yield f, w
            if n == k:
                break
            nxt = []
            for w in frontier:
                for e in edits(w, letters):
                    if e not in seen:
                        seen.add(e)
                        nxt.append(e)
            frontier = nxt
    return cases


def two_headers():
    """Header boxes in several places: the rules are about each superbox on its own."""
    for a in ('ic', 'i', 'ci', 'vbc', 'kc', ''):
        for b in ('ic', 'c', 'vc', 'k', ''):
            for f in FMT:
                for order in (0, 1):
                    yield f, a, b, order


def two(case):
    f, a, b, order = case
    x, y = (B.jp2h(b''.join(LET[c] for c in w)) for w in (a, b))
    ht = f == 'jph'
    cs = B.jp2c(B.codestream(ht=ht))
    return B.SIG + B.ftyp(b'jph ' if ht else b'jp2 ') + x + (y + cs if order else cs + y), f


def spaces(tier):
    t = tier == 'thorough'
    return [
        file_space('header words', 'all sequences of at most %d sub-boxes over 9 kinds' % (5 if t else 4),
                   words('icbpmdrku' if t else 'icbpmdrk', 5 if t else 4), header),
        file_space('header words all kinds', 'all sequences of at most %d sub-boxes over %d kinds' % (
            4 if t else 3, len(LET)), words(''.join(LET), 4 if t else 3), header),
        file_space('edited headers', 'all sequences within %d edits of valid headers' % (3 if t else 2),
                   edited(('ic', 'ibcpmdr', 'vbcc', 'ke') if t else ('ic', 'vbcc', 'icpmdr'),
                          'icbpmdrkvesu' if t else 'icbpmdrk', 3 if t else 2), header),
        file_space('resolution words', 'all sequences of at most %d sub-boxes of the resolution box' % (
            5 if t else 4), words(''.join(RES), 5 if t else 4), resolution),
        file_space('uuid info words', 'all sequences of at most %d sub-boxes of the UUID info box' % (
            5 if t else 4), words(''.join(UINF), 5 if t else 4), uinf),
        file_space('two headers', 'pairs of header boxes before and after the codestream', two_headers, two),
        scale.header(t),
        F.space('features', F.FILE + F.HEADER, 3 if t else 2, also=('fmt', 'verbose')),
    ], ['sub-box contents are valid ones (contents are swept in C04, C19, C21)']
