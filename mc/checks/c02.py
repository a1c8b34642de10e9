"""Top-level box structure decides validity"""
from .. import build as B
from .. import decoy, features as F, scale
from ..common import FnSpace, judge, file_space, sequences, content_space

ALPHA = ('S', 'F', 'H', 'C', 'I', 'X', 'U', 'P')


def letter(c, fmt):
    ht = fmt == 'jph'
    brand = b'jph ' if ht else b'jp2 '
    return {
        'S': lambda: B.SIG,
        'F': lambda: B.ftyp(brand),
        'H': lambda: B.jp2h(B.ihdr(), B.colr()),
        'P': lambda: B.jp2h(B.ihdr(ipr=1), B.colr()),      # announces intellectual property
        'C': lambda: B.jp2c(B.codestream(ht=ht)),
        'I': lambda: B.JP2I,
        'X': lambda: B.XMLBOX,
        'D': lambda: B.UUIDBOX,
        'N': lambda: B.UINF,
        'U': lambda: B.UNKBOX,
        'E': lambda: B.box(b'free'),
        'R': lambda: B.box(b'ihdr', B.ihdr_d()),           # header sub-box out of place
        'O': lambda: B.box(b'colr', b'\1\0\0\0\0\0\x11'),
        'T': lambda: B.ftyp(b'jpx ', 0, [b'jpx ', brand]),
        'B': lambda: B.box(b'jP  ', b'\r\n\x87\r'),
    }[c]()


def make(case):
    fmt, word = case
    return b''.join(letter(c, fmt) for c in word), fmt


def words(alpha, depth):
    def cases():
        for w in sequences(alpha, depth):
            for fmt in ('jp2', 'jph'):
                yield fmt, ''.join(w)
    return cases


def edits(word, letters):
    for i in range(len(word) + 1):
        for c in letters:
            yield word[:i] + c + word[i:]
    for i in range(len(word)):
        yield word[:i] + word[i + 1:]
        for c in letters:
            if c != word[i]:
                yield word[:i] + c + word[i + 1:]
        for j in range(i + 1, len(word)):
            w = list(word)
            w[i], w[j] = w[j], w[i]
            yield ''.join(w)


def edited(start, letters, k):
    """Breadth-first: all words within k edits of the start words."""
    def cases():
        seen, frontier = set(), []
        for s in start:
            if s not in seen:
                seen.add(s)
                frontier.append(s)
                for fmt in ('jp2', 'jph'):
                    yield fmt, s
        for _ in range(k):
            nxt = []
            for w in frontier:
                for e in edits(w, letters):
                    if e not in seen:
                        seen.add(e)
                        nxt.append(e)
                        for fmt in ('jp2', 'jph'):
                            yield fmt, e
            frontier = nxt
    return cases


def repetition():
    for n in (1, 2, 3, 4, 8, 16, 64):
        for c in 'XUDCINE':
            for fmt in ('jp2', 'jph'):
                for pos in range(5):
                    w = 'SFHC'
                    yield fmt, w[:pos] + c * n + w[pos:]


def spaces(tier):
    t = tier == 'thorough'
    base_f = [b'jp2 \0\0\0\0jp2 ', b'jph \0\0\0\0jph jp2 ', b'jpx \0\0\0\0jpx jpm jp2 jph ']

    def place_f(p, fmt, b):
        d, _ = make((fmt, 'SFHC'))
        f = B.ftyp(b'jph ' if fmt == 'jph' else b'jp2 ')
        return d.replace(f, B.box(b'ftyp', p), 1)

    def place_s(p, fmt, b):
        d, _ = make((fmt, 'SFHC'))
        return d.replace(B.SIG, B.box(b'jP  ', p), 1)
    return [
        file_space('box words', 'all sequences of at most %d top-level boxes over %s, jp2 and jph' % (
            6 if t else 4, ''.join(ALPHA)), words(ALPHA, 6 if t else 4), make),
        file_space('box words deep', 'all sequences of at most %d top-level boxes over SFHCX, jp2 and jph' % (
            7 if t else 5), words('SFHCX', 7 if t else 5), make),
        file_space('edited files', 'all sequences within %d edits (insert, delete, replace, swap) of valid files, '
                   '15 box kinds' % (3 if t else 2),
                   edited(('SFHC', 'SFPIC', 'SFPCI', 'SFXHDCN', 'TFHC') if t else ('SFHC', 'SFPXIC'),
                          'SFHCIXUPDNEROTB' if t else 'SFHCIXUPEB', 3 if t else 2), make),
        file_space('repetition', 'up to 64 repetitions of one optional box at every position', repetition, make),
        content_space('file type content', 'every length and every byte value of the file type box',
                      base_f, place_f, ('jp2', 'jph')),
        content_space('signature content', 'every length and every byte value of the signature box',
                      [b'\r\n\x87\n'], place_s, ('jp2', 'jph')),
        scale.boxes(t),
        F.space('features', ('fmt', 'verbose') + F.FILE + ('iunk', 'ipr', 'hunk', 'colr', 'data', 'eoc'), 4 if t else 3),
        file_space('decoys', 'XML and XMP boxes that contain reports of other images and all their parts, 6 files, 5 positions', decoy.cases(), decoy.make),
    ], ['box contents other than those swept are valid ones']
