"""Embedded XML that looks like a report: element names of other images' properties in XML and XMP boxes."""
import itertools
import xml.etree.ElementTree as XET

from . import build as B
from . import corpus, spec

_blobs = []


def _tree(un):
    e = XET.Element(un.tag)
    for i in un.items:
        if isinstance(i, tuple):
            v = spec.show(*i)
            XET.SubElement(e, i[0]).text = v if isinstance(v, str) else '3'
        elif isinstance(i, spec.Unit):
            e.append(_tree(i))
    return e


def blobs():
    """XML texts: the properties of other images and all their parts."""
    if not _blobs:
        ev = corpus.everything()
        other = B.jp2(hdr=B.ihdr(h=9, w=9, ipr=1, unk=1) + B.colr(cs=16) + B.res(B.RESD), cs=B.codestream(
            x=9, y=9, xt=3, yt=3, comps=((11, 1, 1),) * 2, main=B.seg(0x52, B.cod_d(layers=7, levels=2, tr=0)) + B.QCD + B.seg(0x64, b'\0\1decoy-v9')))
        seen = []
        for f, d in [('jp2', other), ev['jp2-rich'], ev['jph-rich'], ev['jp2-icc'], ev['jp2-bpcc']]:
            root = _tree(spec.expect(d, f))
            root.tag = 'properties'
            for e in root.iter():
                if len(e):
                    x = XET.tostring(e)
                    if x not in seen:
                        seen.append(x)
        flat = XET.Element('tests')
        for n in sorted({e.tag for x in seen for e in XET.fromstring(x).iter()}):
            XET.SubElement(flat, n).text = 'False'
        seen.append(XET.tostring(flat))
        for n in ('iPR', 'csiz', 'transformation', 'comment', 'levels', 'isValid', 'compressionRatio', 'ssizDepth'):
            seen.append(('<%s>0</%s>' % (n, n)).encode())
        _blobs.extend(seen)
    return _blobs


HOSTS = ('plain', 'ipr', 'ipr-ok', 'rich', 'jph', 'bad')
PLACES = ('before', 'header', 'mid', 'after', 'info')


def cases(hosts=HOSTS):
    def gen():
        return itertools.product(range(len(blobs())), hosts, PLACES, ('xml', 'xmp'))
    return gen


def make(case):
    k, host, place, how = case
    x = blobs()[k]
    box = B.box(b'xml ', x) if how == 'xml' else B.box(b'uuid', B.XMP + x)
    fmt = 'jph' if host == 'jph' else 'jp2'
    hdr = B.ihdr(ipr=1 if host.startswith('ipr') else 0)
    if place == 'header':
        hdr += box
    hdr += B.colr()
    if host == 'rich':
        hdr += B.res(B.RESC, B.RESD)
    main = (B.CAP if fmt == 'jph' else b'') + B.seg(0x52, B.cod_d(style=0x40 if fmt == 'jph' else 0)) + B.QCD
    if host == 'rich':
        main = B.COM + B.COC + main
    cs = B.codestream(ht=fmt == 'jph', main=main, **(dict(x=5) if host == 'bad' else {}))
    extra = {place: B.box(b'uinf', B.ULST + box + B.URL) if place == 'info' else box}
    after = extra.get('after', b'') + extra.get('info', b'') + (B.box(b'jp2i', b'x') if host == 'ipr-ok' else b'')
    return B.jp2(fmt, hdr=hdr, cs=cs, before=extra.get('before', b''), mid=extra.get('mid', b''), after=after), fmt
