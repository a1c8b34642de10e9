"""Files of varied structure: short words over the alphabets of the structural checks, and single defects."""
import itertools

from . import build as B
from . import corpus, faults


def structures(fmt):
    """{name: contents} for one format."""
    from .checks import c02, c03, c06, c09
    out = {}
    boxed = fmt in ('jp2', 'jph')
    ht = fmt in ('jph', 'jhc')
    if boxed:
        for n in range(3):
            for w in itertools.product(c03.LET, repeat=n):
                w = 'ic' + ''.join(w)
                out['hdr-' + w] = c03.header((fmt, w))[0]
        for w in itertools.product(c03.RES, repeat=2):
            out['res-' + ''.join(w)] = c03.resolution((fmt, w))[0]
        for w in itertools.product(c03.UINF, repeat=2):
            out['uinf-' + ''.join(w)] = c03.uinf((fmt, w))[0]
        for w in itertools.product('SFHCIXUP', repeat=2):
            out['top-' + ''.join(w)] = c02.make((fmt, 'SF' + ''.join(w)))[0]
            out['end-' + ''.join(w)] = c02.make((fmt, 'SFHC' + ''.join(w)))[0]
    for n in range(2 if boxed else 3):
        for w in itertools.product(c06.MAIN, repeat=n):
            out['main-' + ''.join(w)] = c06.make((fmt, 'DQ' + ('A' if ht else '') + ''.join(w), 0x4000 if ht else 0))[0]
    for w in itertools.product(c09.SEGS, repeat=1):
        out['tile-' + ''.join(w)] = c09.stream(fmt, c09.GRIDS[1], B.tilepart(segs=b''.join(c09.SEGS[c] for c in w)))
    for i, w in enumerate(itertools.product(itertools.product((0, 1, 2), (0, 1), (0, 1, 2)), repeat=2)):
        out['parts-%d' % i] = c09.stream(fmt, c09.GRIDS[2], b''.join(B.tilepart(*p) for p in w))
    return out


def files(fmt):
    """Structures, files with single defects, and the corpus, for one format."""
    out = structures(fmt)
    out.update(('d%d' % i, faults.build(c)[0]) for i, c in enumerate(faults.files(1, (fmt,))))
    out.update((n, d) for n, (f, d) in corpus.everything().items() if f == fmt)
    return out
