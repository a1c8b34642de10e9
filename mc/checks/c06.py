"""Codestream main header structure decides validity"""
import itertools

from .. import build as B
from .. import features as F
from .. import scale
from ..common import FORMATS, file_space, sequences

MAIN = {
    'D': B.COD, 'Q': B.QCD, 'C': B.COC, 'c': B.seg(0x53, B.coc_d(1)), 'K': B.QCC, 'k': B.seg(0x5d, B.qcc_d(1)),
    'R': B.RGN, 'P': B.POC, 'G': B.CRG, 'M': B.COM, 'm': B.COMB, 'A': B.CAP, 'F': B.PRF, 'f': B.CPF, 'T': B.TLM,
    'L': B.PLM, 'H': B.PPM, 'U': B.UNK, 't': B.PLT, 'h': B.PPT, 'Z': B.siz(), 'O': B.SOC, 'E': B.EOC,
    'e': b'\xff\x92', 'S': B.SOD, 'x': B.seg(0x64, b'\0\1a\xff\x90b'),
}


def make(case):
    fmt, w, rsiz = case
    cs = B.SOC + B.siz(rsiz=rsiz) + b''.join(MAIN[c] for c in w) + B.tilepart() + B.EOC
    return B.wrap(cs, fmt), fmt


def words(alpha, depth, formats, rsizs=(0,)):
    def cases():
        for w in sequences(alpha, depth):
            for f in formats:
                for r in rsizs:
                    yield f, ''.join(w), r
    return cases


def around(base, letters, k, formats, rsiz):
    """All ways to insert at most k segments into, or drop at most one from, a valid main header."""
    def cases():
        for drop in (None,) + tuple(range(len(base))):
            b = base if drop is None else base[:drop] + base[drop + 1:]
            for n in range(k + 1):
                for ins in itertools.product(letters, repeat=n):
                    for pos in itertools.combinations_with_replacement(range(len(b) + 1), n):
                        w, last = '', 0
                        for p, c in zip(pos, ins):
                            w += b[last:p] + c
                            last = p
                        w += b[last:]
                        for f in formats:
                            yield f, w, rsiz
    return cases


def frames():
    """Start and end of codestream: what precedes SIZ, what follows the last tile-part."""
    starts = {'soc': B.SOC, 'none': b'', 'socsoc': B.SOC * 2, 'eoc': B.EOC, 'sod': B.SOD, 'com': B.COM, 'one': b'\xff',
              'zero': b'\0\0', 'soccom': B.SOC + B.COM, 'socunk': B.SOC + B.UNK, 'cap': B.SOC + B.CAP,
              'bad': b'\xff\x4e', 'bad2': b'\xfe\x4f'}
    ends = {'eoc': B.EOC, 'none': b'', 'ff': b'\xff', 'd9': b'\xd9', 'eoceoc': B.EOC * 2, 'eoc0': B.EOC + b'\0',
            'd8': b'\xff\xd8', 'zero': b'\0\0', 'eocx': B.EOC + b'abc', 'xeoc': b'abc' + B.EOC, 'soc': B.SOC}
    sizes = {'siz': 1, 'none': 0, 'twice': 2}
    for f in FORMATS:
        for a in starts:
            for z in ends:
                for s in sizes:
                    yield f, starts[a], sizes[s], ends[z]
    for f in FORMATS:
        for b0 in range(256):
            yield f, bytes((b0, 0x4f)), 1, B.EOC
            yield f, bytes((0xff, b0)), 1, B.EOC
            yield f, B.SOC, 1, bytes((b0, 0xd9))
            yield f, B.SOC, 1, bytes((0xff, b0))


def frame(case):
    f, a, n, z = case
    ht = f in ('jph', 'jhc')
    rs = 0x4000 if ht else 0
    cs = a + B.siz(rsiz=rs) * n + (B.CAP if ht else b'') + B.COD + B.QCD + B.tilepart() + z
    return B.wrap(cs, f), f


def endings(t):
    """What follows the end of the codestream: padding, line ends and other left-overs, in the codestream or behind the last box."""
    alpha = (0, 0x0a, 0x0d, 0x1a, 0x20, 0xd9, 0xff)

    def cases():
        tails = [b''] + [bytes((b,)) for b in range(256)]
        for n in range(2, 5 if t else 4):
            tails += [bytes(v) for v in itertools.product(alpha, repeat=n)]
        tails += [bytes((b,)) * n for b in alpha for n in (5, 6, 7, 8, 16, 511, 4096)]
        for f in FORMATS:
            for p in (None, 0):
                for tail in tails:
                    yield f, p, B.EOC + tail, b''
                    if p is None:
                        yield f, p, tail, b''
                        if f in ('jp2', 'jph'):
                            yield f, p, B.EOC, tail
    return cases


def ending(case):
    f, p, z, tail = case
    cs = B.codestream(ht=f in ('jph', 'jhc'), tiles=B.tilepart(**({} if p is None else dict(psot=p))), eoc=z)
    return B.wrap(cs, f) + tail, f


def profiles():
    """The capabilities announced against the segments that are there."""
    lows = (0, 1, 7, 15, 0xff, 0xfff)
    for f in FORMATS:
        for top in range(16):
            for low in lows:
                for w in ('DQ', 'ADQ', 'DQA', 'FDQ', 'fDQ', 'AAFDQ', 'A', 'DA', 'QA', ''):
                    yield f, w, top << 12 | low


def markers():
    """Every two-byte marker code in place of a segment, and in place of SIZ, SOT, SOD."""
    for f in ('jp2', 'jhc'):
        for m in range(256):
            for where in range(5):
                yield f, m, where
    for m in range(0, 65536, 257):
        yield 'jp2', m, 9
        yield 'jp2', m ^ 0xff, 9


def marker(case):
    f, m, where = case
    ht = f == 'jhc'
    rs = 0x4000 if ht else 0
    s, com, tile = B.siz(rsiz=rs), B.COM, B.tilepart(segs=B.COM)
    cap = B.CAP if ht else b''
    mk = bytes((255, m & 255))
    if where == 0:
        com = mk + com[2:]
    elif where == 1:
        s = mk + s[2:]
    elif where == 2:
        tile = mk + tile[2:]
    elif where == 3:
        tile = tile.replace(B.COM, mk + B.COM[2:])
    elif where == 4:
        tile = tile.replace(B.SOD, mk)
    else:
        com = bytes((m >> 8, m & 255)) + com[2:]
    cs = B.SOC + s + cap + B.COD + com + B.QCD + tile + B.EOC
    return B.wrap(cs, f), f


def components(t):
    """Component-specific segments: all component indices, one- and two-byte."""
    def cases():
        for f in ('jp2', 'j2c', 'jph'):
            for n in (1, 2, 3, 255, 256, 257, 300):
                for a in (0, 1, 2, 254, 255, 256, 299):
                    for b in (0, 1, 2, 254, 255, 256, 299):
                        if n > 256 or max(a, b) < 256:
                            for kind in 'CK':
                                yield f, n, kind, (a, b)
            for kind in 'CK':
                for abc in itertools.product(range(3), repeat=3):
                    yield f, 3, kind, abc
                if t:
                    for abc in itertools.product(range(4), repeat=4):
                        yield f, 4, kind, abc
    return cases


def comp(case):
    f, n, kind, idx = case
    wide = n > 256
    ht = f in ('jph', 'jhc')
    segs = b''.join(B.seg(0x53, B.coc_d(i, wide)) if kind == 'C' else B.seg(0x5d, B.qcc_d(i, wide)) for i in idx)
    other = b''.join(B.seg(0x5d, B.qcc_d(i, wide)) if kind == 'C' else B.seg(0x53, B.coc_d(i, wide))
                     for i in sorted(set(idx)))
    cs = B.codestream(ht=ht, comps=((7, 1, 1),) * n, main=(B.CAP if ht else b'') + B.COD + B.QCD + segs + other)
    return B.wrap(cs, f), f


def repeats():
    for f in ('jp2', 'jhc'):
        for c in 'RPGMmAFfTLHUC':
            for n in (1, 2, 3, 4, 10, 50, 255, 300):
                yield f, 'A' + 'D' + c * n + 'Q', 0x4000 if f == 'jhc' else 0


def spaces(tier):
    t = tier == 'thorough'
    return [
        file_space('segment words', 'all main headers of at most %d segments over 8 kinds' % (5 if t else 4),
                   words('DQCKMAUc' if t else 'DQCKMAU', 5 if t else 4, ('jp2', 'jhc'), (0, 0x4000)), make),
        file_space('segment words all kinds', 'all main headers of at most %d segments over all %d kinds' % (
            3 if t else 2, len(MAIN)), words(''.join(MAIN), 3 if t else 2, FORMATS, (0, 0x4000)), make),
        file_space('around part 1', 'valid main header, one segment dropped and up to %d inserted anywhere' % (
            3 if t else 2), around('DQ', 'DQCcKkRPGMmATLHUFfx' if t else 'DQCcKkRPMATLHUx', 3 if t else 2,
                                   ('jp2', 'j2c') if not t else FORMATS, 0), make),
        file_space('around ht', 'valid HT main header, one segment dropped and up to 2 inserted anywhere',
                   around('ADQ', 'DQCKRPGMATLHUFfm', 2, ('jph', 'jhc') if t else ('jhc',), 0x4000), make),
        file_space('frames', 'start and end of codestream, all delimiter bytes', frames, frame),
        file_space('endings', 'up to %d bytes and long runs behind the end of the codestream, in place of it, behind the last box' % (4 if t else 3),
                   endings(t), ending),
        file_space('profiles', 'announced capabilities (all top bits) against the segments present', profiles, make),
        file_space('marker codes', 'every marker code at every segment position', markers, marker),
        F.space('features', ('comps', 'rsiz', 'grid') + F.MAIN + ('eoc', 'tail', 'sod', 'psot'), 3 if t else 2, also=('fmt',)),
        file_space('components', 'component indices of COC and QCC, up to 300 components', components(t), comp),
        file_space('repeats', 'up to 300 repetitions of a segment', repeats, make),
        scale.segments(t),
    ], ['segment contents are valid ones (contents are swept in C07, C08)']
