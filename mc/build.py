"""Builders for JPEG 2000 files: boxes, marker segments, codestreams."""
from struct import pack


def box(typ, data=b'', enc=4):
    """enc: 4 (32-bit length), 8 (extended length), 0 (up to end of container)."""
    if enc == 4:
        return pack('>I', 8 + len(data)) + typ + data
    if enc == 8:
        return pack('>I', 1) + typ + pack('>Q', 16 + len(data)) + data
    return pack('>I', 0) + typ + data


SIG = box(b'jP  ', b'\r\n\x87\n')


def ftyp(brand=b'jp2 ', minv=0, cl=None):
    return box(b'ftyp', brand + pack('>I', minv) + b''.join([brand] if cl is None else cl))


def ihdr_d(h=4, w=4, nc=1, bpc=7, c=7, unk=0, ipr=0):
    return pack('>IIHBBBB', h, w, nc, bpc, c, unk, ipr)


def ihdr(**kw):
    return box(b'ihdr', ihdr_d(**kw))


def colr(cs=17, meth=1, prec=0, approx=0, rest=None):
    return box(b'colr', pack('>BBB', meth, prec, approx) + (pack('>I', cs) if rest is None else rest))


def bpcc(*vals):
    return box(b'bpcc', bytes(vals))


def pclr_d(depths=(7,), entries=((1,), (2,))):
    """depths: B field per column; entries: rows of values."""
    out = pack('>HB', len(entries), len(depths)) + bytes(depths)
    for row in entries:
        for b, v in zip(depths, row):
            out += v.to_bytes(((b & 127) + 8) // 8, 'big')
    return out


def cmap_d(*chans):
    return b''.join(pack('>HBB', *c) for c in (chans or ((0, 0, 0),)))


def cdef_d(*chans):
    return pack('>H', len(chans)) + b''.join(pack('>HHH', *c) for c in chans)


def res_d(vn=300, vd=1, hn=300, hd=1, ve=0, he=0):
    return pack('>HHHHbb', vn, vd, hn, hd, ve, he)


def res(*subs):
    return box(b'res ', b''.join(subs))


RESC = box(b'resc', res_d())
RESD = box(b'resd', res_d(200, 1, 250, 1, 1, -1))


def jp2h(*subs, enc=4):
    return box(b'jp2h', b''.join(subs), enc)


def seg(marker, data=b'', length=None):
    return bytes((255, marker)) + pack('>H', (len(data) + 2 if length is None else length) & 0xffff) + data


SOC, SOD, EOC = b'\xff\x4f', b'\xff\x93', b'\xff\xd9'


def siz_d(x=4, y=4, xo=0, yo=0, xt=None, yt=None, xto=0, yto=0, comps=((7, 1, 1),), rsiz=0, csiz=None):
    return pack('>HIIIIIIIIH', rsiz, x, y, xo, yo, x if xt is None else xt, y if yt is None else yt,
                xto, yto, len(comps) if csiz is None else csiz) + bytes(v for c in comps for v in c)


def siz(**kw):
    return seg(0x51, siz_d(**kw))


def cod_d(s=0, order=0, layers=1, mct=0, levels=0, cbw=4, cbh=4, style=0, tr=1, prec=b''):
    return pack('>BBHBBBBBB', s, order, layers, mct, levels, cbw, cbh, style, tr) + prec


def coc_d(comp=0, wide=False, s=0, levels=0, cbw=4, cbh=4, style=0, tr=1, prec=b''):
    return pack('>H' if wide else '>B', comp) + pack('>BBBBBB', s, levels, cbw, cbh, style, tr) + prec


def qcd_d(style=0, guard=2, steps=None):
    if steps is None:
        steps = b'\x40' if style == 0 else b'\x48\x01'
    return bytes((guard << 5 | style,)) + steps


def qcc_d(comp=0, wide=False, style=0, guard=1, steps=None):
    return pack('>H' if wide else '>B', comp) + qcd_d(style, guard, steps)


def rgn_d(comp=0, wide=False, style=0, shift=5):
    return pack('>H' if wide else '>B', comp) + bytes((style, shift))


def poc_d(*recs, wide=False):
    f = '>BHHBHB' if wide else '>BBHBBB'
    return b''.join(pack(f, *r) for r in (recs or ((0, 0, 1, 1, 1, 0),)))


COD = seg(0x52, cod_d())
QCD = seg(0x5c, qcd_d())
COC = seg(0x53, coc_d())
QCC = seg(0x5d, qcc_d())
RGN = seg(0x5e, rgn_d())
POC = seg(0x5f, poc_d())
CRG = seg(0x63, pack('>HH', 1, 2))
COM = seg(0x64, pack('>H', 1) + b'hi')
COMB = seg(0x64, pack('>H', 0) + b'\x01\xfe')
CAP = seg(0x50, pack('>IH', 1 << 17, 0x0020))
PRF = seg(0x56, pack('>H', 5))
CPF = seg(0x59, pack('>H', 6))
TLM = seg(0x55, b'\x00\x40\x00\x00\x00\x10')
PLM = seg(0x57, b'\x00\x02\x05\x81')
PPM = seg(0x60, b'\x00\x00\x00\x00\x02ab')
PLT = seg(0x58, b'\x00\x05')
PPT = seg(0x61, b'\x00ab')
UNK = seg(0x75, b'\xff\x93\xff\xd9')           # marker unknown to the tool, contents look like markers


def tilepart(isot=0, tp=0, tn=1, segs=b'', data=b'\x80\x80', psot=None, sod=True, lsot=10):
    body = segs + (SOD if sod else b'') + data
    if psot is None:
        psot = 12 + len(body)
    return b'\xff\x90' + pack('>HHIBB', lsot, isot, psot & 0xffffffff, tp, tn) + body


def codestream(main=None, tiles=None, eoc=EOC, soc=SOC, ht=False, size=None, **kw):
    """kw goes to siz(); main: bytes between SIZ and first tile-part; tiles: bytes."""
    if ht and 'rsiz' not in kw:
        kw['rsiz'] = 0x4000
    if main is None:
        main = (CAP if ht else b'') + (HTCOD if ht else COD) + QCD
    if tiles is None:
        tiles = tilepart()
    return soc + (siz(**kw) if size is None else size) + main + tiles + eoc


HTCOD = seg(0x52, cod_d(style=0x40))


def jp2c(cs, enc=4):
    return box(b'jp2c', cs, enc)


def jp2(fmt='jp2', hdr=None, cs=None, before=b'', mid=b'', after=b'', ih=None):
    ht = fmt == 'jph'
    if hdr is None:
        hdr = ihdr(**(ih or {})) + colr()
    if cs is None:
        cs = codestream(ht=ht)
    return SIG + ftyp(b'jph ' if ht else b'jp2 ') + before + jp2h(hdr) + mid + jp2c(cs) + after


def wrap(cs, fmt):
    """File of the given format holding this codestream (with a matching header if it is 4x4, 1 x 8 bit)."""
    return jp2(fmt, cs=cs) if fmt in ('jp2', 'jph') else cs


UUID1 = bytes(range(1, 17))
XMP = bytes.fromhex('be7acfcb97a942e89c71999491e3afac')
XML = b'<?xml version="1.0"?><a:r xmlns:a="urn:x" k="v">t<b/>u</a:r>'
XMLBOX = box(b'xml ', XML)
UUIDBOX = box(b'uuid', UUID1 + b'payload')
XMPBOX = box(b'uuid', XMP + XML)
ULST = box(b'ulst', pack('>H', 1) + UUID1)
URL = box(b'url ', b'\0\0\0\0http://x/\0')
UINF = box(b'uinf', ULST + URL)
JP2I = box(b'jp2i', b'ip')
UNKBOX = box(b'abcd', b'\0\0\0\x09xml \xff\x4f')


def icc_d(size=None, cls=b'mntr', tags=(), desc=b'sRGB', **kw):
    """ICC profile; tags: additional tag signatures. A desc tag is added if desc is not None."""
    f = dict(cmm=b'lcms', ver=b'\x02\x10\0\0', space=b'RGB ', pcs=b'XYZ ', date=(2001, 2, 3, 4, 5, 6),
             sig=b'acsp', plat=b'APPL', flags=0, manu=b'ABCD', model=b'EFGH', attr=0, intent=0,
             ill=(63190, 65536, 54061), creator=b'lcms', pid=bytes(16))
    f.update(kw)
    ntags = len(tags) + (desc is not None)
    table_end = 132 + 12 * ntags
    body, table = b'', b''
    if desc is not None:
        d = b'desc' + bytes(4) + pack('>I', len(desc) + 1) + desc + b'\0' + bytes(78)
        table += b'desc' + pack('>II', table_end, len(d))
        body += d
    for t in tags:
        table += t + pack('>II', table_end, 12)
    hdr = f['cmm'] + f['ver'] + cls + f['space'] + f['pcs'] + pack('>6H', *f['date']) + f['sig'] + f['plat'] + \
        pack('>I', f['flags']) + f['manu'] + f['model'] + pack('>Q', f['attr']) + pack('>HH', 0, f['intent']) + \
        pack('>3I', *f['ill']) + f['creator'] + f['pid'] + bytes(28) + pack('>I', ntags)
    total = 4 + len(hdr) + len(table) + len(body)
    return pack('>I', total if size is None else size) + hdr + table + body


def with_siz(n, ht=False, **kw):
    """Image size segment with n components."""
    return dict(comps=((7, 1, 1),) * n, **kw)
