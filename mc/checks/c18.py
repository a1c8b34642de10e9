"""MIX output faithfully restates a valid image"""
import itertools
import xml.etree.ElementTree as XET
from fractions import Fraction

from .. import build as B
from .. import cli, corpus, decoy, faults, features as F, impl, spec
from ..common import FORMATS, FnSpace, deviations, patch
from .c13 import tree

NS = {1: 'http://www.loc.gov/mix/v10', 2: 'http://www.loc.gov/mix/v20'}
RDF = '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}'
XAP, TIFF, AUX = '{http://ns.adobe.com/xap/1.0/}', '{http://ns.adobe.com/tiff/1.0/}', '{http://ns.adobe.com/exif/1.0/aux/}'


def node(tag, *kids):
    if len(kids) == 1 and not isinstance(kids[0], tuple):
        return (tag, str(kids[0]), ())
    return (tag, '', tuple(k for k in kids if k is not None))


def nearest(text, digits):
    """Number of the report times 10^digits, as an integer (the report rounds to two decimals)."""
    return str(round(Fraction(text) * 10 ** digits))


def codec(comment):
    for line in comment.split('\n'):
        i = line.rfind('-v')
        if i >= 0:
            n = i + 2
            while n < len(line) and line[n] in '0123456789.':
                n += 1
            return node('CodecCompliance', node('codec', line[:i]), node('codecVersion', line[i + 2:n]))
    return None


def capture(props):
    rdf = None
    for box in ('xmlBox', 'uuidBox'):
        found = [r for b in props.findall(box) for meta in b.findall('{adobe:ns:meta/}xmpmeta') for r in meta.findall(RDF + 'RDF')]
        if rdf is None and found and len(found[0]):
            rdf = found[0]
    if rdf is None:
        return None

    def get(name):
        for d in rdf.findall(RDF + 'Description'):
            e = d.find(name)
            if e is not None:
                return e.text
        for d in rdf.findall(RDF + 'Description'):
            if d.get(name):
                return d.get(name)
        return None

    def opt(tag, name):
        v = get(name)
        return None if v is None else node(tag, v.strip())
    general = node('GeneralCaptureInformation', None, opt('dateTimeCreated', XAP + 'CreateDate'), opt('imageProducer', TIFF + 'Artist'))
    make = opt('scannerManufacturer', TIFF + 'Make')
    model = [opt('scannerModelName', TIFF + 'Model'), opt('scannerModelSerialNo', AUX + 'SerialNumber')]
    model = node('ScannerModel', None, *model) if any(model) else None
    tool = get(XAP + 'CreatorTool')
    soft = None
    if tool is not None:
        a, sp, b = tool.rpartition(' ')
        if sp and not b.strip('0123456789.'):
            soft = node('ScanningSystemSoftware', node('scanningSoftwareName', a), node('scanningSoftwareVersionNo', b))
        else:
            soft = ('ScanningSystemSoftware', '', (node('scanningSoftwareName', tool),))
    scanner = node('ScannerCapture', None, make, model, soft) if make or model or soft else None
    return node('ImageCaptureMetadata', general, scanner, None)


def expected(props, v):
    """MIX record that restates the reported properties."""
    txt = props.findtext
    cs = props.find('contiguousCodestreamBox')
    ratio = txt('compressionRatio')
    lossless = cs.findtext('cod/transformation') == '5-3 reversible'
    basic = node('BasicDigitalObjectInformation', node('FormatDesignation', node('formatName', 'image/' + txt('fileTypeBox/br').strip()), None),
                 node('byteOrder', 'big_endian' if v == 1 else 'big endian'),
                 node('Compression', node('compressionScheme', 'JPEG 2000 Lossless' if lossless else 'JPEG 2000 Lossy'),
                      node('compressionRatio', nearest(ratio, 0)) if v == 1 else
                      node('compressionRatio', node('numerator', nearest(ratio, 2)), node('denominator', 100))))
    colour = None
    iccs = props.findall('jp2HeaderBox/colourSpecificationBox/icc')
    enum = props.findall('jp2HeaderBox/colourSpecificationBox/enumCS')
    if iccs:
        colour = node('PhotometricInterpretation', node('colorSpace', (iccs[0].findtext('colourSpace') or '').strip()),
                      node('ColorProfile', node('IccProfile', node('iccProfileName', iccs[0].findtext('description') or ''), None), None))
    elif enum:
        colour = node('PhotometricInterpretation', node('colorSpace', enum[0].text.strip()), None)
    com = cs.find('com/comment')
    xt, yt = cs.findtext('siz/xTsiz'), cs.findtext('siz/yTsiz')
    layers, levels = cs.findtext('cod/layers'), cs.findtext('cod/levels')
    image = node('BasicImageInformation',
                 node('BasicImageCharacteristics', node('imageWidth', txt('jp2HeaderBox/imageHeaderBox/width')),
                      node('imageHeight', txt('jp2HeaderBox/imageHeaderBox/height')), colour),
                 node('SpecialFormatCharacteristics', node(
                     'JPEG2000', codec(com.text or '') if com is not None else None,
                     node('EncodingOptions', node('tiles', xt + 'x' + yt) if v == 1 else node('Tiles', node('tileWidth', xt), node('tileHeight', yt)),
                          node('qualityLayers', layers) if layers != '0' else None,
                          node('resolutionLevels', levels) if levels != '0' else None)), None))
    metrics = None
    for kind, c in (('captureResolutionBox', 'c'), ('displayResolutionBox', 'd')):
        b = props.find('jp2HeaderBox/resolutionBox/' + kind)
        if b is not None:
            # pixels per metre, restated per centimetre
            metrics = node('SpatialMetrics', node('samplingFrequencyUnit', '3' if v == 1 else 'cm'),
                           *[node(t, node('numerator', nearest(b.findtext(a + 'Res%sInPixelsPerMeter' % c), 2)), node('denominator', 10000))
                             for t, a in (('xSamplingFrequency', 'h'), ('ySamplingFrequency', 'v'))])
            break
    depths = [e.text for e in cs.find('siz').findall('ssizDepth')]
    if v == 1:
        bits = node('bitsPerSample', node('bitsPerSampleValue', ','.join(depths)), node('bitsPerSampleUnit', 'integer'))
    else:
        bits = node('BitsPerSample', *([node('bitsPerSampleValue', d) for d in depths] + [node('bitsPerSampleUnit', 'integer')]))
    assess = node('ImageAssessmentMetadata', metrics, node('ImageColorEncoding', bits, node('samplesPerPixel', cs.findtext('siz/csiz'))), None)
    return node('mix', basic, image, capture(props), assess)


def actual(e, ns):
    tag = e.tag
    tag = tag[len(ns) + 2:] if tag.startswith('{%s}' % ns) else '?' + tag
    kids = tuple(actual(k, ns) for k in e)
    return (tag, '' if kids else (e.text or ''), kids)


def same(a, b):
    """Expected and found record; numbers that are halves may be rounded either way."""
    if a[0] != b[0] or len(a[2]) != len(b[2]):
        return False
    if a[1] != b[1]:
        if a[0] in ('numerator', 'compressionRatio') and a[1].lstrip('-').isdigit() and b[1].lstrip('-').isdigit():
            return abs(int(a[1]) - int(b[1])) <= max(1, abs(int(a[1])) // 10 ** 15) and a[0] == 'compressionRatio' or \
                abs(int(a[1]) - int(b[1])) <= abs(int(a[1])) // 10 ** 14
        return False
    return all(same(x, y) for x, y in zip(a[2], b[2]))


def check(R, data, fmt):
    R.file('input.' + fmt, data)
    path = impl.put(data)
    base = impl.Report(impl.to_text(impl.call(path, fmt, True, True)))
    R.execs += 1
    ok = base.valid == 'True' and fmt in ('jp2', 'jph')
    if spec.expect(data, fmt).failed() == (base.valid == 'True'):
        R.fail('verdict %s' % base.valid)
    for v in (1, 2):
        rep = impl.Report(impl.to_text(impl.call(path, fmt, True, True, False, v)))
        R.execs += 1
        R.traces += 1
        R.steps += 1
        R.state(data, fmt, v)
        R.outcome(rep.key('propertiesExtension'))
        for part in ('statusInfo', 'isValid', 'tests', 'properties', 'warnings'):
            if tree(rep.root.find(part)) != tree(base.root.find(part)):
                R.fail('[%s MIX %d] %s changes' % (fmt, v, part))
        if rep.success != 'True':
            R.fail('[%s MIX %d] analysis fails: %s' % (fmt, v, rep.failure))
            continue
        if rep.extension is None:
            R.fail('[%s MIX %d] no extension' % (fmt, v))
            continue
        recs = list(rep.extension)
        if len(recs) != (1 if ok else 0):
            R.fail('[%s MIX %d] %d records, image %s' % (fmt, v, len(recs), 'valid' if ok else 'not valid or raw'))
            continue
        if ok:
            want, got = expected(base.properties, v), actual(recs[0], NS[v])
            if not same(want, got):
                R.fail('[%s MIX %d] record differs: %s' % (fmt, v, first_difference(want, got)))


def first_difference(a, b, path=''):
    p = path + '/' + a[0]
    if a[0] != b[0]:
        return '%s: %s' % (p, b[0])
    if [k[0] for k in a[2]] != [k[0] for k in b[2]]:
        return '%s: expected %s, found %s' % (p, [k[0] for k in a[2]], [k[0] for k in b[2]])
    if a[1] != b[1]:
        return '%s: expected %r, found %r' % (p, a[1], b[1])
    for x, y in zip(a[2], b[2]):
        if not same(x, y):
            return first_difference(x, y, p)
    return ''


# --- cases ------------------------------------------------------------------------------------------------

def xmp(desc):
    return ('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" '
            'xmlns:xmp="http://ns.adobe.com/xap/1.0/" xmlns:tiff="http://ns.adobe.com/tiff/1.0/" '
            'xmlns:aux="http://ns.adobe.com/exif/1.0/aux/">%s</rdf:RDF></x:xmpmeta>' % desc).encode()


FIELDS = ('xmp:CreateDate', 'tiff:Artist', 'tiff:Make', 'tiff:Model', 'aux:SerialNumber', 'xmp:CreatorTool')
VALUES = {f: 'v%d' % i for i, f in enumerate(FIELDS)}
VALUES['xmp:CreateDate'] = '2020-01-02T03:04:05'


def descriptions():
    """Every subset of the fields, as elements or attributes, and special values."""
    for mask in itertools.product((0, 1, 2), repeat=len(FIELDS)):
        att = ''.join(' %s="%s"' % (f, VALUES[f]) for f, m in zip(FIELDS, mask) if m == 2)
        el = ''.join('<%s>%s</%s>' % (f, VALUES[f], f) for f, m in zip(FIELDS, mask) if m == 1)
        yield '<rdf:Description%s>%s</rdf:Description>' % (att, el)
    for tool in ('Tool 1.2', 'Tool', 'Tool 1.2b', 'My Tool 3', 'Tool  4', 'T .', '1.0', ' 1.0', 'Tool 1.2 beta', 'a b 7.8.9', '\u00e9 2'):
        yield '<rdf:Description xmp:CreatorTool="%s"/>' % tool
        yield '<rdf:Description><xmp:CreatorTool>%s</xmp:CreatorTool></rdf:Description>' % tool
    yield ''
    yield '<rdf:Description/>'
    yield '<rdf:other/>'
    yield '<rdf:Description tiff:Make="a"><tiff:Make>b</tiff:Make></rdf:Description>'
    yield '<rdf:Description tiff:Make="a"/><rdf:Description><tiff:Model>b</tiff:Model></rdf:Description>'
    yield '<rdf:Description tiff:Make="a"/><rdf:Description tiff:Model="b"/>'
    yield '<rdf:Description tiff:Make="a"/><rdf:Description tiff:Make="b"/>'
    yield '<rdf:Description> <tiff:Artist> spaced  name </tiff:Artist></rdf:Description>'
    yield '<rdf:Description><tiff:Artist/></rdf:Description>'
    yield '<rdf:Description tiff:Artist=""/>'
    few = ('', ' ', '\t\n', ' a ', '0', 'b')
    for a, b in itertools.product(few, repeat=2):       # two descriptions, values that are empty, blank or false-like
        yield '<rdf:Description tiff:Make="%s"/><rdf:Description tiff:Make="%s"/>' % (a, b)
        yield '<rdf:Description tiff:Make="%s"/><rdf:Description><tiff:Make>%s</tiff:Make></rdf:Description>' % (a, b)
        yield '<rdf:Description tiff:Make="%s"><tiff:Make>%s</tiff:Make></rdf:Description>' % (a, b)
    for f in FIELDS:
        for a in few:
            yield '<rdf:Description %s="%s"/>' % (f, a)


def xmp_cases(t):
    def cases():
        for i, d in enumerate(descriptions()):
            for where in ('xml', 'uuid') if t or i % 5 == 0 or i > 729 else ('uuid',):
                yield d, where
        few = ['', '<rdf:Description tiff:Make="one"/>', '<rdf:Description tiff:Make="two"/>']
        for a, b in itertools.product(few, repeat=2):
            yield (a, b), 'both'
            yield (a, b), 'uuid2'
            yield (a, b), 'xml2'
    return cases


def xmp_run(case, R):
    d, where = case
    if where == 'xml':
        b = B.box(b'xml ', xmp(d))
    elif where == 'uuid':
        b = B.box(b'uuid', B.XMP + xmp(d))
    elif where == 'both':
        b = B.box(b'uuid', B.XMP + xmp(d[0])) + B.box(b'xml ', xmp(d[1]))
    elif where == 'uuid2':
        b = B.UUIDBOX + B.box(b'uuid', B.XMP + xmp(d[0])) + B.box(b'uuid', B.XMP + xmp(d[1]))
    else:
        b = B.XMLBOX + B.box(b'xml ', xmp(d[0])) + B.box(b'xml ', xmp(d[1]))
    check(R, B.jp2(before=b), 'jp2')


def icc(**kw):
    return B.colr(meth=2, rest=B.icc_d(**kw))


COLOURS = [B.colr(), B.colr(cs=16), B.colr(cs=18), icc(), icc(space=b'GRAY', desc=b'grey profile'), icc(desc=b''), icc(desc=None), icc(cls=b'scnr', space=b'Lab '),
           B.colr() + icc(), icc() + icc(desc=b'second'), B.colr(cs=18) + B.colr(cs=16), icc(desc=b' x \n y'), B.colr(meth=3, rest=B.icc_d(cls=b'prtr')),
           B.colr(meth=5, rest=bytes((0, 1, 0, 2, 0, 4, 128))), b'', B.colr(meth=9)]
COMMENTS = [b'', B.COM, B.COMB] + [B.seg(0x64, b'\0\1' + c) for c in (
    b'Kakadu-v6.4', b'x-v', b'-v1', b'a-v1-v2.0', b'one\ntwo-v3.1x', b'-v\n-v2', b'Kakadu-6', b'v1.2', b'A B-v1.2.3 beta', b' pad -v9 ', b'\xe9-v1', b'a-vb')] + \
    [B.COM + B.seg(0x64, b'\0\1late-v1'), B.COMB + B.seg(0x64, b'\0\1late-v1')]
RES = [b''] + [B.res(*r) for r in ((B.RESC,), (B.RESD,), (B.RESC, B.RESD), (B.RESD, B.RESC))] + \
    [B.res(B.box(b'resc', B.res_d(*r))) for r in ((1, 3, 2, 3), (65535, 1, 1, 65535), (300, 254, 299, 254, 4, 4), (1, 1, 1, 1, -3, -2), (1, 1, 1, 1, 127, 20), (7, 1, 9, 1, -128, -127),
                                                 (0, 1, 0, 1), (11811, 1, 23622, 2, 0, 0), (1, 1000, 15, 1000), (20000, 127, 40000, 127, 2, 2), (1, 8, 3, 8))]
COMPS = [((7, 1, 1),), ((7, 1, 1),) * 3, ((15, 1, 1),) * 2, ((7, 1, 1), (11, 2, 2)), ((135, 1, 1),), ((0, 1, 1),) * 4, ((37, 1, 1), (0, 1, 1), (165, 1, 1))]
DOM = [
    ('jp2', 'jph'),
    COLOURS, COMMENTS, RES, COMPS,
    [1, 0],                              # transformation
    [1, 2, 255, 65535, 0],               # layers
    [0, 1, 5, 32],                       # levels
    [(4, 4, None, None), (5, 3, 2, 2), (4096, 100, 1024, 4096), (2, 2, 2 ** 32 - 1, 2 ** 31), (1, 1, None, None)],   # size and tiles
    [b'\x80', b'\x80' * 100, b'\x80' * 3000],
    [0, 1, 2],                           # nothing, second codestream, tile header segments that differ
    [b'', B.bpcc(11), B.box(b'pclr', B.pclr_d((3, 15), ((1, 2), (3, 4)))) + B.box(b'cmap', B.cmap_d((0, 1, 0), (0, 1, 1))),
     B.box(b'cdef', B.cdef_d((0, 0, 1))), B.box(b'abcd', b'x')],             # more header boxes
    [0, 1, 3],                           # image offset
    [b'', B.seg(0x53, B.coc_d(levels=3, tr=0)) + B.seg(0x5d, B.qcc_d(steps=b'\x40' * 10)), B.POC + B.RGN, B.PRF + B.TLM],   # main header
    [None, [b'jp2 ', b'jph ', b'jpx '], [b'jpx ', b'jph ', b'jp2 ']],       # compatibility list
    [0, 1, 2],                           # main header: usual order, other segments before COD, QCD before COD
]


def image_cases(k):
    def cases():
        for v in deviations([list(range(len(d))) for d in DOM], k):
            yield v
    return cases


def image_run(v, R):
    fmt, col, com, res, comps, tr, layers, levels, (x, y, xt, yt), payload, extra, boxes, off, more, compat, order = [d[i] for d, i in zip(DOM, v)]
    ht = fmt == 'jph'
    depths = {c[0] for c in comps}
    hdr = B.ihdr(h=y, w=x, nc=len(comps), bpc=comps[0][0] if len(depths) == 1 else 255, unk=0 if col else 1)
    if len(depths) > 1:
        hdr += B.bpcc(*[c[0] for c in comps])
    style = 0x40 if ht else 0
    cod, qcd = B.seg(0x52, B.cod_d(layers=layers, levels=levels, tr=tr, style=style)), B.seg(0x5c, B.qcd_d(0, 2, b'\x40' * (3 * levels + 1)))
    more = more if not ht else more.replace(B.COC[:1] + b'\x53\0\x09\0\0\3\4\4\0', B.COC[:1] + b'\x53\0\x09\0\0\3\4\4\x40')
    main = (B.CAP if ht else b'') + b''.join(((cod, qcd, more, com), (com, more, cod, qcd), (qcd, cod, com, more))[order])
    x, y, xt, yt = x + off, y + off, xt or x + off, yt or y + off
    nt = -(-x // xt) * -(-y // yt)
    segs = (B.seg(0x52, B.cod_d(layers=9, levels=0, tr=1 - tr, style=style)) + B.seg(0x64, b'\0\1tile-v7') if extra == 2 else b'')
    tiles = b''.join(B.tilepart(i, 0, 1, segs, payload) for i in range(nt))
    cs = B.codestream(ht=ht, main=main, tiles=tiles, x=x, y=y, xt=xt, yt=yt, xo=off, yo=off, comps=comps)
    after = B.jp2c(B.codestream(x=77, y=88, main=B.seg(0x52, B.cod_d(layers=3, tr=1 - tr)) + B.QCD)) if extra == 1 else b''
    d = B.SIG + B.ftyp(b'jph ' if ht else b'jp2 ', 0, compat) + B.jp2h(hdr + boxes + col + res) + B.jp2c(cs) + after
    check(R, d, fmt)


def whole(case, R):
    n, f = case
    check(R, corpus.everything()[n][1], f)


def defect(case, R):
    d, f = faults.build(case)
    check(R, d, f)


def byte_cases(values):
    def cases():
        for n in ('jp2-rich', 'jph-anyicc', 'jp2-icc'):
            d = corpus.valid()[n][1]
            for p in range(len(d)):
                for v in values:
                    if v != d[p] and (p != d.find(b'cdef') + 4 or v < 2):       # (65000 channels)
                        yield n, ((p, v),)
    return cases


def byte_run(case, R):
    n, fl = case
    f, d = corpus.valid()[n]
    d = patch(d, fl)
    i = d.find(b'\xff\x51')
    if i >= 0 and int.from_bytes(d[i + 38:i + 40], 'big') > 600:
        return
    check(R, d, f)


def feature_cases(t):
    dims = ('before', 'mid', 'after', 'cenc', 'colr', 'gap', 'pclr', 'cmap', 'cdef', 'res', 'hunk', 'bpcc', 'comps', 'depth', 'sub', 'offset', 'grid', 'cod', 'coc',
            'com', 'parts', 'where', 'tcod', 'tcoc', 'tcom')

    def cases():
        for dev in F.vectors(tuple(d for d in F.ALL if d not in F.OPTIONS[1:]), 2 if t else 1):
            yield dev
        for dev in F.vectors(dims, 2):
            if len(dev) == 2 and (t or dict(dev).get('comps', 1) < 256):
                if not t:
                    yield dev
                yield dev + (('fmt', 'jph'),)
    return cases


def spaces(tier):
    t = tier == 'thorough'
    return [
        FnSpace('images', 'all images that deviate in at most %d of 16 features (colour, comment, resolution, components, coding, tiles...)' % (3 if t else 2),
                image_cases(3 if t else 2), image_run),
        FnSpace('XMP', 'every subset of the capture fields as elements or attributes, special values, several boxes', xmp_cases(t), xmp_run),
        FnSpace('decoys', 'XML and XMP boxes that contain reports of other images and all their parts', decoy.cases(('plain', 'rich', 'jph', 'ipr-ok')),
                lambda c, R: check(R, *decoy.make(c))),
        FnSpace('corpus', 'every corpus file in every format', lambda: itertools.product(corpus.everything(), FORMATS), whole),
        FnSpace('defects', 'all files with at most %d defects' % (2 if t else 1), lambda: faults.files(2 if t else 1, FORMATS), defect),
        FnSpace('features', 'all files that combine at most 2 features', feature_cases(t), lambda c, R: check(R, *F.build(c)[:2])),
        FnSpace('byte faults', 'every byte of 3 files set to %d values' % (256 if t else 3), byte_cases(range(256) if t else (1, 32, 255)), byte_run),
    ], ['the record is compared with the reported properties (which C02-C09 compare with the file)']
