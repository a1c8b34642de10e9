"""Feature model of files: every optional or variable part of an image is a dimension with a few values (the first one is the plain
case), and all combinations of up to k values that are not plain are built. The other spaces sweep one structure deeply; these settle
that structures do not influence each other beyond what the reference model says.
"""
from struct import pack

from . import build as B
from .common import deviations, file_space

BOXES = {'X': B.XMLBOX, 'U': B.UUIDBOX, 'P': B.XMPBOX, 'N': B.UINF, 'K': B.UNKBOX, 'I': B.JP2I,
         'B': B.box(b'xml ', b'<a>'), 'Z': B.box(b'xml ', b'<a/>\0'), 'C': B.jp2c(B.codestream(x=9)), 'H': B.jp2h(B.ihdr(h=9) + B.colr(cs=16)),
         'F': B.ftyp(), 'E': B.box(b'free')}
ICC = B.icc_d()
COLR = {'17': B.colr(), '16': B.colr(cs=16), '18': B.colr(cs=18), '12': B.colr(cs=12), 'icc': B.colr(meth=2, rest=ICC),
        'iccbad': B.colr(meth=2, rest=B.icc_d(cls=b'link')), 'icclut': B.colr(meth=2, rest=B.icc_d(tags=(b'A2B0',))), 'any': B.colr(meth=3, rest=ICC),
        'par': B.colr(meth=5, rest=pack('>HHHB', 1, 2, 4, 128)), 'odd': B.colr(prec=255, approx=1), 'm9': B.colr(meth=9),
        'short': B.colr(rest=b'\0')}

# dimension -> values, plain one first
DIM = {
    'fmt': ('jp2', 'jph', 'j2c', 'jhc'),
    'verbose': (True, False),
    'packets': (False, True),
    'nullxml': (False, True),
    # file structure
    'brand': ('own', 'other', 'jpx', 'nolist'),
    'before': ('', 'X', 'K', 'C', 'I', 'N'),
    'mid': ('', 'X', 'U', 'H', 'K', 'C'),
    'after': ('', 'X', 'P', 'N', 'I', 'B', 'Z', 'C', 'H', 'F', 'E'),
    'henc': (4, 8),
    'cenc': (4, 8, 0),
    # header
    'ibpc': (None, 255, 135, 6, 128),
    'inc': (None, 0, 1, 4),
    'idim': ((0, 0), (1, 0), (0, 1)),
    'iunk': (0, 1, 2),
    'ipr': (0, 1, 2),
    'ic': (7, 6),
    'bpcc': (None, 'own', 'less', 'more', 'bad'),
    'colr': (('17',), ('16',), ('18',), ('12',), ('icc',), ('iccbad',), ('icclut',), ('any',), ('par',), ('odd',), ('m9',), ('short',), (), ('17', 'icc'),
             ('icc', '17'), ('12', '17'), ('17', '17')),
    'gap': ('', 'K', 'X'),                       # between and around the colour specifications
    'pclr': (None, 1, 3, 'bad'),
    'cmap': (None, 'pal', 'dir', 'bad'),
    'cdef': (None, 'col', 'alpha', 'bad', 'twice'),
    'res': ('', 'c', 'd', 'cd', 'dc', 'e', 'K'),
    'hunk': ('', 'K', 'X', 'E'),
    # size segment
    'comps': (1, 2, 3, 256, 257),
    'depth': (7, 15, 135, 38),
    'sub': (1, 2, 0),
    'offset': ((0, 0), (1, 0), (0, 1), (2, 3)),
    'grid': ((1, 1), (2, 1), (1, 2), (2, 2)),
    'tileoff': ((0, 0), (1, 0), (0, 1)),
    'rsiz': (None, 1, 2, 0x4000, 0x4001, 0x8000),
    # main header
    'cap': (None, 'ht', 'both', 'none', 'other'),
    'cod': ('plain', 'prec', 'ht', 'mixed', 'style', 'levels', 'irrev', 'bad', 'none', 'sop', 'two'),
    'coc': ('', 'plain', 'prec', 'ht', 'style', 'last', 'dup', 'bad', 'long'),
    'qcd': ('plain', 'derived', 'expounded', 'bad', 'none', 'long'),
    'qcc': ('', 'plain', 'derived', 'expounded', 'last', 'dup', 'bad', 'short'),
    'rgn': ('', 'plain', 'last', 'two', 'bad', 'long'),
    'poc': ('', 'one', 'two', 'badr', 'badc', 'last'),
    'com': ('', 'text', 'bin', 'two', 'bad'),
    'crg': ('', 'plain', 'short'),
    'prf': ('', 'plain'),
    'cpf': ('', 'plain'),
    'tlm': ('', 'plain'),
    'plm': ('', 'plain', 'two'),
    'ppm': ('', 'plain'),
    'munk': ('', 'plain', 'end'),
    # tile-parts
    'parts': (1, 2, 3),
    'announce': (1, 0, 'first', 'wrong'),
    'order': ('tile', 'part', 'reverse'),
    'where': (0, 1, 'last', 'all'),              # tile-part that carries the segments below
    'tcod': ('', 'plain', 'prec', 'ht', 'bad'),
    'tcoc': ('', 'plain', 'prec', 'ht', 'last', 'dup', 'bad'),
    'tqcd': ('', 'plain', 'expounded', 'bad'),
    'tqcc': ('', 'plain', 'expounded', 'last', 'dup', 'bad'),
    'trgn': ('', 'plain', 'last', 'bad'),
    'tpoc': ('', 'one', 'two', 'badr', 'last'),
    'tcom': ('', 'text', 'bin', 'bad'),
    'plt': ('', 'plain', 'two'),
    'ppt': ('', 'plain'),
    'tunk': ('', 'plain'),
    'psot': ('own', 'zero', 'short', 'far'),
    'sod': (True, False),
    'data': (b'\x80\x80', b'', b'\xff\x90\0\x0a\0\0\0\0\0\0\0\1\xff\x93', b'\xff\xd9'),
    'eoc': (True, False),
    'tail': (b'', b'\0', B.EOC),
}

OPTIONS = ('fmt', 'verbose', 'packets', 'nullxml')
FILE = ('brand', 'before', 'mid', 'after', 'henc', 'cenc')
HEADER = ('ibpc', 'inc', 'idim', 'iunk', 'ipr', 'ic', 'bpcc', 'colr', 'gap', 'pclr', 'cmap', 'cdef', 'res', 'hunk')
SIZE = ('comps', 'depth', 'sub', 'offset', 'grid', 'tileoff', 'rsiz')
CODING = ('cod', 'coc', 'qcd', 'qcc', 'rgn', 'poc', 'com', 'crg')
MAIN = ('cap',) + CODING + ('prf', 'cpf', 'tlm', 'plm', 'ppm', 'munk')
PARTS = ('parts', 'announce', 'order', 'where', 'psot', 'sod', 'data', 'eoc', 'tail')
TCODING = ('tcod', 'tcoc', 'tqcd', 'tqcc', 'trgn', 'tpoc', 'tcom')
TILE = PARTS + TCODING + ('plt', 'ppt', 'tunk')
ALL = tuple(DIM)
STREAM = ('fmt',) + SIZE + MAIN + TILE


def cod_seg(kind, ht):
    st = 0x40 if ht else 0
    return {'': b'', 'none': b'', 'plain': B.seg(0x52, B.cod_d(style=st)), 'prec': B.seg(0x52, B.cod_d(1, 2, 3, 0, 2, style=st, prec=b'\x00\x43\x15')),
            'ht': B.seg(0x52, B.cod_d(style=0x40 ^ st)), 'mixed': B.seg(0x52, B.cod_d(style=0xc0)), 'style': B.seg(0x52, B.cod_d(style=0x3f | st)),
            'levels': B.seg(0x52, B.cod_d(levels=32, style=st)), 'irrev': B.seg(0x52, B.cod_d(mct=1, tr=0, style=st)),
            'bad': B.seg(0x52, B.cod_d(1, 5, 0, 2, 1, style=st, prec=b'\x43\x10')), 'sop': B.seg(0x52, B.cod_d(6, 4, style=st)),
            'two': B.seg(0x52, B.cod_d(style=st)) + B.seg(0x52, B.cod_d(layers=2, style=st))}[kind]


def coc_seg(kind, n, ht):
    w = n > 256
    st = 0x40 if ht else 0
    plain = B.seg(0x53, B.coc_d(0, w, style=st))
    return {'': b'', 'plain': plain, 'prec': B.seg(0x53, B.coc_d(0, w, 1, 1, style=st, prec=b'\x00\x21')),
            'ht': B.seg(0x53, B.coc_d(0, w, style=0x40 ^ st)), 'style': B.seg(0x53, B.coc_d(0, w, style=0x3f | st)), 'last': B.seg(0x53, B.coc_d(n - 1, w, style=st)),
            'dup': plain + B.seg(0x53, B.coc_d(0, w, levels=1, style=st)), 'bad': B.seg(0x53, B.coc_d(0, w, 1, 1, 9, 9, style=st, tr=2, prec=b'\x11\x01')),
            'long': B.seg(0x53, B.coc_d(0, w, style=st) + b'\0')}[kind]


def qcd_seg(kind):
    return {'': b'', 'none': b'', 'plain': B.QCD, 'derived': B.seg(0x5c, B.qcd_d(1, 3, b'\x12\x34')), 'expounded': B.seg(0x5c, B.qcd_d(2, 4, bytes(range(100, 114)))),
            'bad': B.seg(0x5c, B.qcd_d(3, 2, b'\x40')), 'long': B.seg(0x5c, B.qcd_d(0, 2, bytes(range(97))))}[kind]


def qcc_seg(kind, n):
    w = n > 256
    plain = B.seg(0x5d, B.qcc_d(0, w))
    return {'': b'', 'plain': plain, 'derived': B.seg(0x5d, B.qcc_d(0, w, 1, 3, b'\x12\x34')), 'expounded': B.seg(0x5d, B.qcc_d(0, w, 2, 4, bytes(range(100, 114)))),
            'last': B.seg(0x5d, B.qcc_d(n - 1, w)), 'dup': plain + B.seg(0x5d, B.qcc_d(0, w, guard=3)), 'bad': B.seg(0x5d, B.qcc_d(0, w, 7)),
            'short': B.seg(0x5d, B.qcc_d(0, w, steps=b''))}[kind]


def rgn_seg(kind, n):
    w = n > 256
    plain = B.seg(0x5e, B.rgn_d(0, w))
    return {'': b'', 'plain': plain, 'last': B.seg(0x5e, B.rgn_d(n - 1, w, shift=37)), 'two': plain + plain, 'bad': B.seg(0x5e, B.rgn_d(0, w, 1, 38)),
            'long': B.seg(0x5e, B.rgn_d(0, w) + b'\0\0')}[kind]


def poc_seg(kind, n):
    w = n > 256
    top = n if w else n & 255
    return {'': b'', 'one': B.seg(0x5f, B.poc_d((0, 0, 1, 1, 1, 0), wide=w)), 'two': B.seg(0x5f, B.poc_d((0, 0, 1, 1, 1, 0), (1, 0, 2, 33, top, 4), wide=w)),
            'badr': B.seg(0x5f, B.poc_d((0, 0, 1, 1, 1, 0), (3, 0, 1, 3, 1, 0), wide=w)), 'badc': B.seg(0x5f, B.poc_d((0, 1, 0, 34, 1, 5), wide=w)),
            'last': B.seg(0x5f, B.poc_d((32, n - 1 if w else n - 1 & 255, 65535, 33, top, 3), wide=w))}[kind]


def com_seg(kind):
    return {'': b'', 'text': B.COM, 'bin': B.COMB, 'two': B.COM + B.seg(0x64, b'\0\1K\xe4k-v1.2'), 'bad': B.seg(0x64, b'\0\2??')}[kind]


def stream(v):
    """Codestream of a feature vector."""
    ht = v['fmt'] in ('jph', 'jhc')
    n = v['comps']
    xo, yo = v['offset']
    gx, gy = v['grid']
    tx, ty = v['tileoff']
    x, y = 4 * gx + tx, 4 * gy + ty
    size = B.siz(x=x, y=y, xo=xo, yo=yo, xt=4, yt=4, xto=tx, yto=ty, comps=((v['depth'], v['sub'], 1),) * n,
                 rsiz=(0x4000 if ht else 0) if v['rsiz'] is None else v['rsiz'])
    cap = v['cap'] or ('ht' if ht else 'none')
    main = {'none': b'', 'ht': B.CAP, 'both': B.seg(0x50, pack('>IHHH', 1 << 31 | 1 << 17 | 1, 1, 0xc81f, 2)), 'other': B.seg(0x50, pack('>IH', 1 << 16, 7))}[cap]
    unk = B.UNK
    main += unk if v['munk'] == 'plain' else b''
    main += cod_seg(v['cod'], ht) + coc_seg(v['coc'], n, ht) + qcd_seg(v['qcd']) + qcc_seg(v['qcc'], n) + rgn_seg(v['rgn'], n) + poc_seg(v['poc'], n)
    main += {'': b'', 'plain': B.seg(0x63, pack('>HH', 1, 65535) * n), 'short': B.seg(0x63, pack('>H', 1))}[v['crg']]
    main += com_seg(v['com']) + (B.PRF if v['prf'] else b'') + (B.CPF if v['cpf'] else b'') + (B.TLM if v['tlm'] else b'')
    main += {'': b'', 'plain': B.PLM, 'two': B.PLM + B.seg(0x57, b'\1\1\7')}[v['plm']] + (B.PPM if v['ppm'] else b'')
    main += unk if v['munk'] == 'end' else b''
    tsegs = cod_seg(v['tcod'], ht) + coc_seg(v['tcoc'], n, ht) + qcd_seg(v['tqcd']) + qcc_seg(v['tqcc'], n) + rgn_seg(v['trgn'], n) + poc_seg(v['tpoc'], n)
    tsegs += com_seg(v['tcom']) + {'': b'', 'plain': B.PLT, 'two': B.PLT + B.seg(0x58, b'\1\x81\x80\x7f')}[v['plt']]
    tsegs += (B.PPT if v['ppt'] else b'') + (unk if v['tunk'] else b'')
    k = v['parts']
    seq = [(t, p) for t in range(gx * gy) for p in range(k)]
    if v['order'] == 'part':
        seq.sort(key=lambda s: (s[1], s[0]))
    elif v['order'] == 'reverse':
        seq.reverse()
    tiles = b''
    for i, (t, p) in enumerate(seq):
        final = i == len(seq) - 1
        w = v['where']
        mine = w == 'all' or w == 'last' and final or w == p and t == 0
        tn = {1: k, 0: 0, 'first': 0 if p else k, 'wrong': k + (final)}[v['announce']]
        part = B.tilepart(t, p, tn, tsegs if mine else b'', v['data'], sod=v['sod'] or not final)
        if final and v['psot'] != 'own':
            part = B.tilepart(t, p, tn, tsegs if mine else b'', v['data'], sod=v['sod'],
                              psot={'zero': 0, 'short': 13, 'far': len(part) + 9}[v['psot']])
        tiles += part
    return B.SOC + size + main + tiles + (B.EOC if v['eoc'] else b'') + v['tail'], x - xo, y - yo


def header(v, w, h):
    n = v['comps']
    d = v['depth'] if v['ibpc'] is None else v['ibpc']
    out = B.ihdr(h=h + v['idim'][0], w=w + v['idim'][1], nc=n if v['inc'] is None else v['inc'], bpc=d, c=v['ic'], unk=v['iunk'], ipr=v['ipr'])
    if v['bpcc']:
        out += B.bpcc(*{'own': (v['depth'],) * n, 'less': (v['depth'],) * (n - 1), 'more': (v['depth'],) * (n + 1), 'bad': (v['depth'],) * (n - 1) + (38,)}[v['bpcc']])
    gap = BOXES[v['gap']] if v['gap'] else b''
    out += gap.join(COLR[c] for c in v['colr']) + gap
    if v['pclr']:
        out += B.box(b'pclr', B.pclr_d((7, 15), ((1, 2),))[:-1] if v['pclr'] == 'bad' else B.pclr_d((7, 15, 137)[:v['pclr']], ((1, 300, 5), (2, 700, 6))))
    if v['cmap']:
        out += B.box(b'cmap', {'pal': B.cmap_d((0, 1, 0), (0, 1, 1)), 'dir': B.cmap_d((0, 0, 0)), 'bad': B.cmap_d((16385, 2, 0), (0, 0, 3))}[v['cmap']])
    if v['cdef']:
        c = B.box(b'cdef', {'col': B.cdef_d((0, 0, 1)), 'alpha': B.cdef_d((0, 0, 1), (1, 1, 0)), 'bad': B.cdef_d((1, 3, 7), (2, 2, 1)),
                            'twice': B.cdef_d((0, 0, 1))}[v['cdef']])
        out += c * (2 if v['cdef'] == 'twice' else 1)
    if v['res']:
        out += B.res(*[{'c': B.RESC, 'd': B.RESD, 'e': B.box(b'resc', B.res_d(0, 0, 1, 1)), 'K': B.UNKBOX}[c] for c in v['res']])
    return out + (BOXES[v['hunk']] if v['hunk'] else b'')


def make(v):
    """(bytes, format, options) of a feature vector (as dict)."""
    cs, w, h = stream(v)
    opts = dict(verbose=v['verbose'], packetmarkers=v['packets'], nullxml=v['nullxml'])
    if v['fmt'] in ('j2c', 'jhc'):
        return cs, v['fmt'], opts
    own = b'jph ' if v['fmt'] == 'jph' else b'jp2 '
    other = b'jp2 ' if v['fmt'] == 'jph' else b'jph '
    ft = {'own': B.ftyp(own), 'other': B.ftyp(other), 'jpx': B.ftyp(b'jpx ', 0, [b'jpx ', own]), 'nolist': B.ftyp(own, 0, [b'jpx '])}[v['brand']]

    def put(k):
        return BOXES[v[k]] if v[k] else b''
    return (B.SIG + ft + put('before') + B.jp2h(header(v, w, h), enc=v['henc']) + put('mid') + B.jp2c(cs, v['cenc']) + put('after'),
            v['fmt'], opts)


HEADER_ONLY = set(FILE + HEADER)


def vectors(dims, k, values=None):
    """Deviating values only, as tuples of (dimension, value); header features need a format with a header."""
    doms = [(values or {}).get(d, DIM[d]) for d in dims]
    for vec in deviations(doms, k):
        dev = tuple((d, x) for d, x, dom in zip(dims, vec, doms) if x != dom[0])
        names = {d for d, _ in dev}
        if dict(dev).get('fmt', 'jp2') in ('j2c', 'jhc') and names & HEADER_ONLY:
            continue
        yield dev


def full(dev, base=()):
    v = {d: x[0] for d, x in DIM.items()}
    v.update(base)
    v.update(dev)
    return v


def build(dev, base=()):
    return make(full(dev, base))


def space(name, dims, k, also=None):
    """All files with at most k features out of these dimensions (times every single value of the dimensions in also)."""
    def cases():
        for dev in vectors(dims, k):
            yield dev
            for d in also or ():
                if d in dict(dev):
                    continue
                for x in DIM[d][1:]:
                    both = dict(dev)
                    both[d] = x
                    if both.get('fmt', 'jp2') in ('j2c', 'jhc') and set(both) & HEADER_ONLY:
                        continue
                    yield tuple(both.items())
    n = sum(len(DIM[d]) - 1 for d in dims)
    return file_space(name, 'all files that combine at most %d of %d features in %d dimensions%s' % (
        k, n, len(dims), ', times each value of ' + ', '.join(also) if also else ''), cases, build)
