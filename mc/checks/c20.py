"""Unknown boxes and segments are skipped without side effects"""
import itertools
import xml.etree.ElementTree as XET
from struct import pack

from .. import build as B
from .. import corpus, features as F, impl, scale, spec
from ..common import FORMATS, FnSpace, judge

SUPER = (b'jp2h', b'res ', b'uinf')
KNOWN = set(spec.BOXES)


def layout(data):
    """Boxes as nested lists: [type, contents or list of sub-boxes]."""
    return [[bytes(t), layout(d) if t in SUPER else bytes(d)] for t, d in spec.split_boxes(data)]


def assemble(tree):
    return b''.join(x if isinstance(x, bytes) else B.box(x[0], assemble(x[1]) if isinstance(x[1], list) else x[1]) for x in tree)


def slots(tree, path=()):
    """Every place where a box may be put, as (path of containers, index)."""
    for i in range(len(tree) + 1):
        yield path, i
        if i < len(tree) and isinstance(tree[i][1], list):
            yield from slots(tree[i][1], path + (i,))


def insert(tree, places):
    """places: list of (slot, bytes); slots refer to the tree without insertions."""
    def go(t, path):
        out = []
        for i in range(len(t) + 1):
            out += [b for (p, j), b in places if p == path and j == i]
            if i < len(t):
                out.append([t[i][0], go(t[i][1], path + (i,))] if isinstance(t[i][1], list) else t[i])
        return out
    return assemble(go(tree, ()))


def early(slot):
    """Places at which any additional box breaks a rule on the order of boxes."""
    return slot in (((), 0), ((), 1))


def breaks(tree, slot):
    p, i = slot
    if not (len(p) == 1 and tree[p[0]][0] == b'jp2h'):
        return early(slot)
    kinds = [k[0] for k in tree[p[0]][1]]
    return i == 0 or b'colr' in kinds[:i] and b'colr' in kinds[i:]         # colour specifications are adjacent


def rest(rep, drop):
    """Report without the parts that stand for the inserted boxes and without the compression ratio."""
    def canon(e):
        return (e.tag, e.text if e.tag != 'compressionRatio' else '', tuple(sorted(e.attrib.items())),
                tuple(canon(k) for k in e if k.tag not in drop))
    w = rep.warnings
    return (rep.success, rep.valid, rep.format, canon(rep.tests), canon(rep.properties), clean(w, drop))


def clean(w, drop):
    out = []
    for e in w:
        if e.tag in drop:
            continue
        sub = clean(e, drop) if len(e) else (e.text or '').strip()
        if len(e) and not sub:
            continue
        out.append((e.tag, sub))
    return tuple(out)


_bases = {}


def base(name):
    if name not in _bases:
        fmt, d = corpus.everything()[name] if isinstance(name, str) else F.build(name)[1::-1]
        # without unknown boxes and segments of its own
        rep = {v: impl.analyse(d, fmt, v) for v in (True, False)}
        _bases[name] = fmt, d, layout(d) if fmt in ('jp2', 'jph') else None, rep
    return _bases[name]


def types(t):
    al = (0x00, 0x20, 0x41, 0x7f, 0x80, 0xff)
    out = []
    for v in itertools.product(al, repeat=4):
        out.append(bytes(v))
    for k in sorted(KNOWN):
        for i in range(4):
            for v in (range(256) if t else (0, 0x20, 0x41, 0x5a, 0x7f, 0x80, 0xc3, 0xff, k[i] ^ 0x20, (k[i] + 1) & 255)):
                x = bytearray(k)
                x[i] = v
                out.append(bytes(x))
        out += [k.upper(), k[::-1], k[1:] + k[:1]]
    out += [b'jpch', b'jplh', b'cgrp', b'ftbl', b'rreq', b'asoc', b'nlst', b'lbl ', b'jp2\0', b'free', b'mdat', b'moov', b'dtbl', b'\xe2\x82\xac\0',
            b'\xc3\xa9\xc3\xa9', b'\xff\x4f\xff\x51', b'\0\0\0\1', b'\0\0\0\0', b'<a/>', b'&lt;', b']]>\0', b'\r\n\r\n', b'\t\t\t\t', b'\x1b[0m']
    seen = set()
    return [x for x in out if x not in KNOWN and not (x in seen or seen.add(x))]


CONTENTS = [b'', b'\0', bytes(7), b'\xff' * 9, B.SIG, B.ihdr() + B.colr(), B.XMLBOX, B.jp2c(B.codestream()), b'\0\0\0\1', b'\0\0\0\4abcd',
            B.codestream(), bytes(range(256)) * 8]


def box_case(R, name, places, fmt=None):
    """places: [(slot, box bytes)]."""
    f, d, tree, rep0 = base(name)
    new = insert(tree, places)
    verbose = len(new) % 2 == 0
    rep = judge(R, new, f, verbose)
    if any(breaks(tree, s) for s, _ in places) or d == new:
        return
    want = rest(rep0[verbose], ('unknownBox', 'intellectualPropertyBox'))
    got = rest(rep, ('unknownBox', 'intellectualPropertyBox'))
    for part, a, b in zip(('status', 'verdict', 'format', 'tests', 'properties', 'warnings'), want, got):
        if a != b:
            R.fail('inserted box changes the %s of the rest of the report' % part)


NAMES_Q = ('jp2-rich', 'jph-rich', 'jp2', 'bad-badc', 'jp2-bpcc')


def all_slots(name):
    return list(slots(layout(corpus.everything()[name][1])))


def positions_space(t):
    names = NAMES_Q + (('jp2-icc', 'jp2-ipr', 'jp2-2cs', 'bad-nullxml', 'bad-nocolr', 'jph-param') if t else ())
    ts = (b'abcd', b'\0\0\0\0', b'\xff\x4f\xff\x51', b'XML ', b'jp2I', b'jp2i')

    def cases():
        for n in names:
            for s in all_slots(n):
                for ty in ts:
                    if ty == b'jp2i' and n == 'jp2-ipr':
                        continue
                    for c in range(len(CONTENTS)):
                        for enc in (4, 8):
                            yield n, s, ty, c, enc

    def run(case, R):
        n, s, ty, c, enc = case
        box_case(R, n, [(s, B.box(ty, CONTENTS[c], enc))])
    return FnSpace('positions', 'one box at every place and nesting level of %d files: 6 types, %d contents, 2 length encodings' % (
        len(names), len(CONTENTS)), cases, run)


def pairs_space(t):
    names = NAMES_Q[:4] if t else ('jp2-rich',)
    boxes = [B.box(b'abcd', b'x'), B.box(b'efgh', B.ihdr()), B.JP2I, B.box(b'abcd', b'')]

    def cases():
        for n in names:
            sl = all_slots(n)
            for a, b in itertools.combinations_with_replacement(range(len(sl)), 2):
                for x, y in itertools.product(range(len(boxes)), repeat=2):
                    if t or (x != y or x == 0):
                        yield n, sl[a], sl[b], x, y

    def run(case, R):
        n, a, b, x, y = case
        box_case(R, n, [(a, boxes[x]), (b, boxes[y])])
    return FnSpace('pairs', 'two unknown or unsupported boxes at every pair of places', cases, run)


def feature_space(t):
    """One unknown box or segment at every place of files with optional parts of every kind."""
    dims = tuple(d for d in F.ALL if d not in F.OPTIONS[1:] + ('henc', 'cenc'))
    new = [B.box(b'abcd', b'x'), B.box(b'XML ', b'<a/>', 8), B.UNK, B.seg(0x74, b'')]

    def cases():
        for dev in F.vectors(dims, 1):
            for f in ('jp2', 'jhc') if not t else ('jp2', 'jph', 'j2c', 'jhc'):
                if 'fmt' in dict(dev) or dict(dev).get('comps', 1) > 3 and f != 'jhc' or f in ('j2c', 'jhc') and set(dict(dev)) & F.HEADER_ONLY:
                    continue
                v = dev + (('fmt', f),)
                d = F.build(v)[0]
                if f in ('jp2', 'jph'):
                    for s in slots(layout(d)):
                        for b in (0, 1):
                            yield v, s, b
                if not {x for x, _ in dev} & {'psot', 'sod', 'eoc', 'tail', 'before', 'mid', 'after', 'data'}:
                    for w in seg_slots(d, f):
                        for b in (2, 3):
                            yield v, w, b

    def run(case, R):
        v, s, b = case
        if b < 2:
            box_case(R, v, [(s, new[b])])
        else:
            seg_case(R, v, s, new[b])
    return FnSpace('features', 'one unknown box or segment at every place of files with one of %d features' % sum(len(F.DIM[d]) - 1 for d in dims), cases, run)


def flood_space(t):
    def cases():
        for n in NAMES_Q:
            for s in all_slots(n):
                for k in (2, 3, 10, 100):
                    yield n, s, k
            yield n, None, 1
            yield n, None, 3

    def run(case, R):
        n, s, k = case
        bs = b''.join(B.box(b'ab%02d' % (i % 100), bytes(i % 5)) for i in range(k))
        box_case(R, n, [(x, bs) for x in (all_slots(n) if s is None else (s,))])
    return FnSpace('many', 'up to 100 unknown boxes at each place, and some at all places at once', cases, run)


def large_space(t):
    """Large unknown boxes and segments, and great numbers of them."""
    def cases():
        for n in ('jp2-rich', 'jph-rich'):
            for s in all_slots(n):
                for k in (255, 256, 257, 1000) + ((1023, 1024, 1025, 2000) if t else ()):
                    yield 'count', n, s, k
                for k in scale.sizes(1 << 20 if t else 1 << 17, 256):
                    yield 'size', n, s, k
        for n in ('jp2-rich', 'jhc-rich'):
            fmt, d = corpus.everything()[n]
            for w in seg_slots(d, fmt):
                for k in scale.sizes(65533, 256) + [65533]:
                    yield 'seg', n, w, k
                for k in (10, 255, 256, 257, 1000):
                    yield 'segs', n, w, k

    def run(case, R):
        kind, n, s, k = case
        if kind == 'count':
            box_case(R, n, [(s, b''.join(B.box(b'ab%02d' % (i % 100), bytes(i % 5)) for i in range(k)))])
        elif kind == 'size':
            box_case(R, n, [(s, B.box(b'abcd', (B.XMLBOX * (k // len(B.XMLBOX) + 1))[:k]))])
        elif kind == 'seg':
            seg_case(R, n, s, B.seg(0x75, b'\xff\x93' * (k // 2) + b'\0' * (k % 2)))
        else:
            seg_case(R, n, s, B.seg(0x75, b'\xff\x93') * k)
    return FnSpace('large', 'unknown boxes up to %d bytes and in numbers up to %d, segments up to the greatest length, at every place' % (
        1 << 20 if t else 1 << 17, 2000 if t else 1000), cases, run)


def types_space(t):
    ts = types(t)
    places = (('jp2', ((), 3)), ('jp2-rich', ((3,), 2)), ('jp2-rich', ((3, 5), 1)), ('jph-rich', ((5,), 1)), ('jph', ((), 4)))

    def cases():
        for ty in ts:
            for i in range(len(places)):
                yield ty, i

    def run(case, R):
        ty, i = case
        n, s = places[i]
        assert s in all_slots(n)
        box_case(R, n, [(s, B.box(ty, b'contents'))])
    return FnSpace('types', '%d types: all combinations of 6 byte values, variations of every known type, types of other standards; 5 places'
                   % len(ts), cases, run)


def tail_space():
    """Unknown last box that extends to the end of its container."""
    def cases():
        for n in NAMES_Q:
            for ty in (b'abcd', b'jp2i', b'\xff\xff\xff\xff'):
                for c in range(len(CONTENTS)):
                    yield n, ty, c

    def run(case, R):
        n, ty, c = case
        tree = layout(corpus.everything()[n][1])
        for s in slots(tree):
            p, i = s
            t = tree
            for k in p:
                t = t[k][1]
            if i == len(t):
                box_case(R, n, [(s, B.box(ty, CONTENTS[c], 0))])
    return FnSpace('last boxes', 'unknown box of length 0 (up to the end) as last one of each container', cases, run)


# --- marker segments ---------------------------------------------------------------------------------

DELIM = set(range(0x30, 0x40)) | {0x4f, 0x51, 0x90, 0x91, 0x92, 0x93, 0xd9}
LISTED = {m[1] for m in spec.SEG}


def parts(data, fmt):
    """Codestream as (prefix, main segments, tile-parts as (fields, segments, data), end, wrapper)."""
    cs = data
    if fmt in ('jp2', 'jph'):
        cs = next(d for t, d in spec.split_boxes(data) if t == b'jp2c')
    cs = bytes(cs)
    off, main = 2, []
    while cs[off:off + 2] != b'\xff\x90':
        n = spec.segment(cs, off)[2]
        main.append(cs[off:n])
        off = n
    tiles = []
    while cs[off:off + 2] == b'\xff\x90':
        isot, psot, tp, tn = (spec.u(cs, off + 4, 2), spec.u(cs, off + 6, 4), cs[off + 10], cs[off + 11])
        end = off + psot if psot else len(cs) - 2
        pos, segs = off + 12, []
        while cs[pos:pos + 2] != b'\xff\x93':
            n = spec.segment(cs, pos)[2]
            segs.append(cs[pos:n])
            pos = n
        tiles.append((isot, tp, tn, psot == 0, segs, cs[pos + 2:end]))
        off = end
    return cs, main, tiles, cs[off:]


def rebuild(data, fmt, where, new):
    """where: ('m', i) before main segment i (at least 1), or ('t', k, i)."""
    cs, main, tiles, end = parts(data, fmt)
    main = list(main)
    if where[0] == 'm':
        main.insert(where[1], new)
    out = b'\xff\x4f' + b''.join(main)
    for k, (isot, tp, tn, zero, segs, body) in enumerate(tiles):
        segs = list(segs)
        if where[0] == 't' and where[1] == k:
            segs.insert(where[2], new)
        out += B.tilepart(isot, tp, tn, b''.join(segs), body, psot=0 if zero else None)
    out += end
    if fmt in ('jp2', 'jph'):
        i = data.index(cs)
        tree = [[t, out if t == b'jp2c' and bytes(d) == cs else bytes(d)] for t, d in spec.split_boxes(data)]
        return b''.join(B.box(bytes(t), d) for t, d in tree)
    return out


def seg_slots(data, fmt):
    _, main, tiles, _ = parts(data, fmt)
    for i in range(1, len(main) + 1):
        yield 'm', i
    for k, t in enumerate(tiles):
        for i in range(len(t[4]) + 1):
            yield 't', k, i


BODIES = [b'', b'\0', b'\xff\x93', b'\xff\xd9\xff\xd9', b'\xff\x90\0\x0a\0\0\0\0\0\x0e\0\1', B.COD, B.SIG, bytes(300), b'\xff' * 31]


def seg_case(R, name, where, new):
    fmt, d, _, rep0 = base(name)
    f = rebuild(d, fmt, where, new)
    verbose = len(f) % 2 == 0
    rep = judge(R, f, fmt, verbose)
    a, b = rest(rep0[verbose], ()), rest(rep, ())
    # length of the tile-part is the only field that differs
    def same(x, y):
        if x[0] == 'psot':
            return True
        return x[0] == y[0] and x[1] == y[1] and len(x[3]) == len(y[3]) and all(same(p, q) for p, q in zip(x[3], y[3]))
    for part, x, y in zip(('status', 'verdict', 'format', 'tests', 'properties', 'warnings'), a, b):
        if part == 'properties':
            if not same(x, y):
                R.fail('inserted segment changes the properties')
        elif x != y:
            R.fail('inserted segment changes the %s of the report' % part)


def segments_space(t):
    names = ('jp2-rich', 'jhc-rich', 'j2c', 'jph') + (('jp2-psot0', 'j2c-many', 'jp2-bpcc', 'bad-badc', 'j2c-psot0') if t else ())
    markers = [m for m in range(256) if m not in DELIM and m not in LISTED]

    def cases():
        for n in names:
            fmt, d = corpus.everything()[n]
            for w in seg_slots(d, fmt):
                for m in (markers if t else (0x00, 0x01, 0x54, 0x62, 0x65, 0x74, 0x75, 0x94, 0xd8, 0xfe, 0xff)):
                    for b in range(len(BODIES)):
                        yield n, w, m, b
        for m in markers:
            for b in (0, 3):
                yield 'j2c', ('m', 1), m, b
                yield 'jph', ('m', 2), m, b
                yield 'jp2-rich', ('t', 0, 2), m, b
                yield 'jhc-rich', ('t', 2, 1), m, b

    def run(case, R):
        n, w, m, b = case
        seg_case(R, n, w, B.seg(m, BODIES[b]))
    return FnSpace('segments', 'unknown segment at every place of main and tile-part headers of %d files, all unknown markers, %d contents' % (
        len(names), len(BODIES)), cases, run)


def misplaced_space():
    """Segments that belong to the other kind of header are skipped."""
    def cases():
        for n in ('jp2-rich', 'jhc-rich', 'j2c'):
            fmt, d = corpus.everything()[n]
            for w in seg_slots(d, fmt):
                for m in ((0x58, 0x61) if w[0] == 'm' else (0x50, 0x55, 0x56, 0x57, 0x59, 0x60, 0x63)):
                    for b in (0, 3, 5):
                        yield n, w, m, b

    def run(case, R):
        n, w, m, b = case
        seg_case(R, n, w, B.seg(m, BODIES[b]))
    return FnSpace('misplaced segments', 'segments that the tool knows only in the other kind of header', cases, run)


def spaces(tier):
    t = tier == 'thorough'
    return [feature_space(t), positions_space(t), pairs_space(t), flood_space(t), large_space(t), types_space(t), tail_space(), segments_space(t), misplaced_space()], \
        ['markers without length (FF30 to FF3F and the delimiters of the standard) are not unknown segments',
         'places at which any additional box violates a rule of order (before the file type box, before the image header, between colour specifications) are '
         'compared with the reference model only']
