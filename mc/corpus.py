"""Small structured files used as starting points of explorations."""
import os
from struct import pack

from . import build as B


def _rich_header(n=1, ht=False):
    return (B.ihdr(nc=n) + B.colr() + B.box(b'pclr', B.pclr_d((7, 9), ((1, 300), (2, 513)))) +
            B.box(b'cmap', B.cmap_d((0, 1, 0), (0, 1, 1))) + B.box(b'cdef', B.cdef_d((0, 0, 1), (1, 1, 0))) +
            B.res(B.RESC, B.RESD))


def _rich_main(ht=False):
    return ((B.CAP if ht else b'') + B.seg(0x52, B.cod_d(1, 2, 3, 0, 1, style=0x40 if ht else 0, prec=b'\x21\x43')) +
            B.seg(0x5c, B.qcd_d(0, 2, bytes((0x48, 0x50, 0x58, 0x60)))) + B.COC + B.QCC + B.RGN + B.POC + B.CRG +
            B.COM + B.COMB + B.TLM + B.PLM + B.PPM + B.UNK)


def _rich_tiles():
    return (B.tilepart(0, 0, 2, B.COM + B.PLT + B.PPT + B.COD + B.QCD + B.COC + B.QCC + B.RGN + B.POC) +
            B.tilepart(1, 0, 1) + B.tilepart(0, 1, 2, B.PLT))


GRID2 = dict(x=4, y=4, xt=2, yt=4)


def valid():
    """name -> (format, bytes): files that conform to their format."""
    f = {}
    icc = B.icc_d()
    f['jp2'] = 'jp2', B.jp2()
    f['jph'] = 'jph', B.jp2('jph')
    f['j2c'] = 'j2c', B.codestream()
    f['jhc'] = 'jhc', B.codestream(ht=True)
    f['jp2-rich'] = 'jp2', B.jp2(hdr=_rich_header(), before=B.XMLBOX, mid=B.UUIDBOX + B.UINF,
                                 cs=B.codestream(main=_rich_main(), tiles=_rich_tiles(), **GRID2),
                                 after=B.XMPBOX + B.UNKBOX)
    f['jph-rich'] = 'jph', B.jp2('jph', hdr=_rich_header(), before=B.XMLBOX, mid=B.UUIDBOX + B.UINF,
                                 cs=B.codestream(ht=True, main=_rich_main(True) + B.CPF, tiles=_rich_tiles(), **GRID2),
                                 after=B.XMPBOX + B.UNKBOX)
    f['j2c-rich'] = 'j2c', B.codestream(main=_rich_main(), tiles=_rich_tiles(), **GRID2)
    f['jhc-rich'] = 'jhc', B.codestream(ht=True, main=_rich_main(True), tiles=_rich_tiles(), **GRID2)
    f['jp2-icc'] = 'jp2', B.jp2(hdr=B.ihdr(nc=3) + B.colr(meth=2, rest=icc), cs=B.codestream(comps=((7, 1, 1),) * 3))
    f['jph-anyicc'] = 'jph', B.jp2('jph', hdr=B.ihdr() + B.colr(meth=3, rest=B.icc_d(tags=(b'A2B0',))))
    f['jph-param'] = 'jph', B.jp2('jph', hdr=B.ihdr() + B.colr(meth=5, rest=pack('>HHHB', 1, 2, 4, 128)))
    f['jph-unkc'] = 'jph', B.jp2('jph', hdr=B.ihdr(unk=1))
    f['jp2-bpcc'] = 'jp2', B.jp2(hdr=B.ihdr(nc=2, bpc=255) + B.bpcc(7, 135) + B.colr(cs=16),
                                 cs=B.codestream(comps=((7, 1, 1), (135, 2, 1))))
    f['jp2-ipr'] = 'jp2', B.jp2(hdr=B.ihdr(ipr=1) + B.colr(), after=B.JP2I)
    f['jp2-2cs'] = 'jp2', B.jp2(after=B.jp2c(B.codestream(x=9)))
    f['jp2-psot0'] = 'jp2', B.jp2(cs=B.codestream(tiles=B.tilepart(psot=0)))
    f['j2c-psot0'] = 'j2c', B.codestream(tiles=B.tilepart(0, 0, 1) + B.tilepart(1, 0, 1, psot=0), **GRID2)
    f['jp2-xl'] = 'jp2', (B.box(b'jP  ', b'\r\n\x87\n', 8) + B.ftyp() +
                          B.jp2h(B.box(b'ihdr', B.ihdr_d(), 8), B.colr(), enc=8) + B.jp2c(B.codestream(), 8))
    f['jp2-last0'] = 'jp2', B.SIG + B.ftyp() + B.jp2h(B.ihdr() + B.colr()) + B.jp2c(B.codestream(), 0)
    f['j2c-257'] = 'j2c', B.codestream(comps=((7, 1, 1),) * 257,
                                       main=B.COD + B.QCD + B.seg(0x53, B.coc_d(256, True)) +
                                       B.seg(0x5d, B.qcc_d(256, True)) + B.seg(0x5e, B.rgn_d(1, True)) +
                                       B.seg(0x5f, B.poc_d((0, 0, 1, 1, 300, 0), wide=True)))
    f['j2c-many'] = 'j2c', B.codestream(x=5, y=3, xt=2, yt=2,
                                        tiles=b''.join(B.tilepart(i, p, 2) for p in range(2) for i in range(6)))
    return f


def invalid():
    """name -> (format, bytes): files with defects."""
    f = {}
    f['empty'] = 'jp2', b''
    f['text'] = 'jp2', b'this is not an image\n'
    f['noeoc'] = 'jp2', B.jp2(cs=B.codestream(eoc=b''))
    f['badc'] = 'jp2', B.jp2(ih=dict(c=3, h=9))
    f['nocolr'] = 'jp2', B.jp2(hdr=B.ihdr())
    f['nullxml'] = 'jp2', B.jp2(before=B.box(b'xml ', B.XML + b'\0') + B.box(b'uuid', B.XMP + B.XML + b'\0\0'))
    f['badxml'] = 'jp2', B.jp2(before=B.box(b'xml ', b'<a>'))
    f['cut'] = 'jp2', B.jp2()[:150]
    f['tiles'] = 'j2c', B.codestream(tiles=B.tilepart(0, 0, 2, B.PLT), main=B.COD + B.PLM, **GRID2)
    f['htcod'] = 'jhc', B.codestream()
    f['box0'] = 'jp2', b'\0\0\0\1abcd\0\0'
    f['wrongbrand'] = 'jph', B.jp2('jp2')
    f['odd'] = 'jp2', odd()
    f['odd-jph'] = 'jph', odd('jph', 3)
    f['multi'] = 'jp2', multi()
    return f


def odd(fmt='jp2', k=0):
    """Enumerated fields with values that have no meaning."""
    ht = fmt == 'jph'
    hdr = (B.ihdr(c=8 + k, unk=5 + k, ipr=7 + k) + B.colr(meth=2 + (k > 0), rest=B.icc_d(
        cls=b'test', plat=b'ABC' + bytes((65 + k,)), intent=77 + k, flags=0xff, attr=0xff, manu=b'\0\1\xe9x', model=b'    ')) +
           B.colr(cs=1000 + k) + B.colr(meth=9 + k) + B.box(b'pclr', B.pclr_d((7, 9), ((1, 300), (2, 513)))) +
           B.box(b'cmap', B.cmap_d((0, 5 + k, 0), (0, 1, 1))) + B.box(b'cdef', B.cdef_d((0, 9 + k, 500 + k), (1, 65535, 65535))))
    main = ((B.CAP if ht else b'') + B.seg(0x52, B.cod_d(0xff, 9 + k, 3, 5, 0, style=0xff, tr=7 + k, prec=b'\x21')) +
            B.seg(0x5c, B.qcd_d(7, 2)) + B.seg(0x53, B.coc_d(0, s=0, tr=9)) + B.seg(0x5d, B.qcc_d(0, style=8)) +
            B.seg(0x5e, B.rgn_d(0, False, 6 + k)) + B.seg(0x5f, B.poc_d((0, 0, 1, 1, 1, 7), (0, 0, 1, 1, 1, 9 + k))) +
            B.seg(0x64, pack('>H', 12 + k) + b'xy'))
    return B.jp2(fmt, hdr=hdr, cs=B.codestream(main=main, ht=ht))


def multi():
    """The same tests failing several times."""
    hdr = (B.ihdr(nc=3, bpc=255) + B.bpcc(100, 7, 101) + B.colr(cs=16) + B.colr(cs=90) + B.colr(cs=91) +
           B.box(b'pclr', B.pclr_d((99, 98), ((1, 2), (3, 4)))) + B.box(b'cmap', B.cmap_d((0, 4, 0), (1, 0, 3), (9, 5, 1))) +
           B.box(b'cdef', B.cdef_d((0, 9, 500), (1, 7, 1), (2, 8, 2))))
    main = B.seg(0x52, B.cod_d(1, 9, 1, 0, 2, prec=b'\x01\x00\x0f')) + B.QCD + B.COC * 3 + B.seg(0x5f, B.poc_d(
        (99, 0, 0, 0, 0, 9), (98, 0, 0, 0, 0, 8))) + B.seg(0x64, b'\0\x09') * 2
    return B.jp2(hdr=hdr, cs=B.codestream(main=main, comps=((100, 0, 0), (7, 1, 1), (101, 0, 1)), tiles=B.tilepart(segs=B.COC * 2 + B.QCC * 2)))


def everything():
    d = dict(valid())
    d.update(('bad-' + k, v) for k, v in invalid().items())
    return d


def balloon():
    p = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'example_files', 'balloon.jp2')
    with open(p, 'rb') as fh:
        return fh.read()


def balloon_size():
    p = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'example_files', 'balloon.jp2')
    return os.path.getsize(p)


def codestream_end(data, fmt):
    """Offset of the end of the first codestream of a file."""
    from . import spec
    if fmt in ('j2c', 'jhc'):
        return len(data)
    pos = 0
    while pos < len(data):
        n, head = spec.u(data, pos, 4), 8
        if n == 1:
            n = spec.u(data, pos + 8, 8)
        if n == 0:
            n = len(data) - pos
        if data[pos + 4:pos + 8] == b'jp2c':
            return pos + n
        pos += n
    return len(data)
