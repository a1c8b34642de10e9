"""Files assembled from pieces, any of which can be replaced by a defective one."""
import itertools

from . import build as B

# piece -> variants; the first one is sound
PIECES = {
    'sig': [B.SIG, b'', B.box(b'jP  ', b'\r\n\x87\r'), B.SIG * 2],
    'ftyp': [None, b'', B.ftyp(b'jpx '), B.box(b'ftyp', b'jp2 ')],
    'ihdr': [B.ihdr(), b'', B.ihdr(h=5), B.ihdr(c=0, unk=2, ipr=9), B.box(b'ihdr', b'\0\0\0\4'), B.ihdr(bpc=255),
             B.ihdr() * 2],
    'colr': [B.colr(), b'', B.colr(cs=99, prec=1), B.colr(meth=2, rest=b'\0\0'), B.colr(meth=9)],
    'res': [B.res(B.RESC), b'', B.res(), B.res(B.box(b'resc', B.res_d(0, 0))), B.res(B.RESC, B.RESC)],
    'pal': [b'', B.box(b'pclr', B.pclr_d()), B.box(b'cmap', B.cmap_d((0, 0, 3)))],
    'xml': [B.XMLBOX, b'', B.box(b'xml ', b'<a'), B.box(b'xml ', B.XML + b'\0')],
    'uuid': [B.UUIDBOX, b'', B.box(b'uuid', b'short'), B.box(b'uuid', B.XMP + b'<x>'),
             B.box(b'uinf', B.URL), B.box(b'uinf', B.ULST + B.box(b'url ', b'\1\1\1\1x'))],
    'unk': [b'', B.UNKBOX, B.JP2I],
    'soc': [B.SOC, b'', b'\xff\x4e'],
    'siz': [None, b'', B.siz(rsiz=0x1fff), B.siz(x=0), B.siz(comps=((50, 0, 0),))],
    'cod': [B.COD, b'', B.seg(0x52, B.cod_d(order=9, layers=0, tr=7)), B.seg(0x52, B.cod_d(levels=40))],
    'qcd': [B.QCD, b'', B.seg(0x5c, b'\x05')],
    'main': [b'', B.COC * 2, B.seg(0x64, b'\0\5x'), B.seg(0x5e, B.rgn_d(0, False, 3)), B.PLM + B.PPM + B.TLM],
    'tile': [B.tilepart(segs=B.COM), b'', B.tilepart(sod=False), B.tilepart(isot=3), B.tilepart(tn=2),
             B.tilepart(segs=B.COC * 2 + B.PLT), B.tilepart(tp=1, segs=B.COD), B.tilepart(psot=13),
             B.tilepart() + B.tilepart()],
    'eoc': [B.EOC, b'', B.EOC + b'x'],
}
NAMES = list(PIECES)
BOXES = ('sig', 'ftyp', 'ihdr', 'colr', 'res', 'pal', 'xml', 'uuid', 'unk')


def assemble(choice, fmt):
    """choice: {piece: variant index}."""
    ht = fmt in ('jph', 'jhc')
    p = {n: PIECES[n][choice.get(n, 0)] for n in NAMES}
    if p['siz'] is None:
        p['siz'] = B.siz(rsiz=0x4000 if ht else 0)
    if p['ftyp'] is None:
        p['ftyp'] = B.ftyp(b'jph ' if ht else b'jp2 ')
    cs = p['soc'] + p['siz'] + (B.CAP if ht else b'') + p['cod'] + p['qcd'] + p['main'] + p['tile'] + p['eoc']
    if fmt in ('j2c', 'jhc'):
        return cs
    return p['sig'] + p['ftyp'] + p['xml'] + B.jp2h(p['ihdr'], p['colr'], p['pal'], p['res']) + p['uuid'] + \
        p['unk'] + B.jp2c(cs)


def choices(k, names=NAMES):
    """All ways to replace at most k pieces, as tuples of (piece, variant)."""
    for m in range(k + 1):
        for sub in itertools.combinations(names, m):
            for v in itertools.product(*[range(1, len(PIECES[n])) for n in sub]):
                yield tuple(zip(sub, v))


def files(k, formats):
    for ch in choices(k):
        for f in formats:
            if f in ('j2c', 'jhc') and any(n in BOXES for n, _ in ch):
                continue
            yield f, ch


def build(case):
    f, ch = case
    return assemble(dict(ch), f), f
