"""Reference model: what the report of a JPEG 2000 file must say.

Written from the user manual and from ISO/IEC 15444-1 / 15444-15, independent of the code under
test: `expect(data, fmt, ...)` maps the bytes of a file to the expected report (a tree of units, each
with its validation tests, its properties and its warnings). Nothing in here imports jpylyzer.

A field that cannot be read because the data end too early has the value MISSING (-9999).
"""
import fractions
import unicodedata
import xml.etree.ElementTree as XET

MISSING = -9999
F = fractions.Fraction


class Any:
    """Leaf value on which the specification is silent (the element itself must be there)."""

    def __repr__(self):
        return '<any>'

    def matches(self, text):
        return True


ANY = Any()


class Num:
    """Decimal number rounded to `digits` decimals (half a unit plus float noise is tolerated)."""

    def __init__(self, exact, digits):
        self.exact, self.digits = F(exact), digits

    def __repr__(self):
        return '<number %s>' % float(self.exact)

    def matches(self, text):
        try:
            got = F(text)
        except (ValueError, TypeError):
            return False
        tol = F(1, 2 * 10 ** self.digits) + abs(self.exact) / 10 ** 12 + F(1, 10 ** 12)
        return abs(got - self.exact) <= tol and self._short(text)

    def _short(self, text):
        text = text.lower()
        if 'e' in text:
            return True
        return len(text.partition('.')[2]) <= self.digits


class HexList:
    """Comma separated hexadecimal numbers; `open_end`: last one is cut off, so unspecified."""

    def __init__(self, values, open_end=False):
        self.values, self.open_end = list(values), open_end

    def __repr__(self):
        return '<hex %s%s>' % (','.join('%X' % v for v in self.values), ' ...' if self.open_end else '')

    def matches(self, text):
        try:
            got = [int(x, 16) for x in text.split(',')] if text else []
        except ValueError:
            return False
        if self.open_end:
            return got[:len(self.values)] == self.values and len(got) <= len(self.values) + 1
        return got == self.values


class Unit:
    """A box, marker segment or other structural part of the report."""

    def __init__(self, tag):
        self.tag, self.tests, self.items, self.warnings = tag, [], [], []
        self.hidden = False          # properties left out (packet markers not requested)

    def t(self, name, ok):
        self.tests.append((name, bool(ok)))

    def p(self, name, value):
        self.items.append((name, value))

    def add(self, unit):
        self.items.append(unit)

    def kids(self):
        return [i for i in self.items if isinstance(i, Unit)]

    def value(self, name):
        """First property of that name (raw value)."""
        for i in self.items:
            if isinstance(i, tuple) and i[0] == name:
                return i[1]
        return None

    def values(self, name):
        return [i[1] for i in self.items if isinstance(i, tuple) and i[0] == name]

    def kid(self, *path):
        u = self
        for tag in path:
            u = next((k for k in u.kids() if k.tag == tag), None)
            if u is None:
                return None
        return u

    def failed(self):
        return any(not ok for _, ok in self.tests) or any(k.failed() for k in self.kids())


# --------------------------------------------------------------------------------------------------
# Enumerated values (user manual, chapter 6 and 7)

YN = {0: 'no', 1: 'yes'}
SIGN = {0: 'unsigned', 1: 'signed'}
TEXT = {
    'unkC': YN, 'iPR': YN, 'embeddedProfile': YN, 'profileCannotBeUsedIndependently': YN, 'vidFRng': YN,
    'sop': YN, 'eph': YN, 'multipleComponentTransformation': YN, 'codingBypass': YN,
    'resetOnBoundaries': YN, 'termOnEachPass': YN, 'vertCausalContext': YN, 'predTermination': YN,
    'segmentationSymbols': YN,
    'bSign': SIGN, 'bPCSign': SIGN, 'ssizSign': SIGN,
    'c': {7: 'jpeg2000'},
    'meth': {1: 'Enumerated', 2: 'Restricted ICC', 3: 'Any ICC', 4: 'Vendor Colour',
             5: 'Parameterized Colourspace'},
    'enumCS': {16: 'sRGB', 17: 'greyscale', 18: 'sYCC'},
    'profileClass': {b'scnr': 'Input Device Profile', b'mntr': 'Display Device Profile',
                     b'prtr': 'Output Device Profile', b'link': 'DeviceLink Profile',
                     b'spac': 'ColorSpace Conversion Profile', b'abst': 'Abstract Profile',
                     b'nmcl': 'Named Colour Profile'},
    'primaryPlatform': {b'APPL': 'Apple Computer, Inc.', b'MSFT': 'Microsoft Corporation',
                        b'SGI': 'Silicon Graphics, Inc.', b'SUNW': 'Sun Microsystems, Inc.'},
    'transparency': {0: 'Reflective', 1: 'Transparent'},
    'glossiness': {0: 'Glossy', 1: 'Matte'},
    'polarity': {0: 'Positive', 1: 'Negative'},
    'colour': {0: 'Colour', 1: 'Black and white'},
    'renderingIntent': {0: 'Perceptual', 1: 'Media-Relative Colorimetric', 2: 'Saturation',
                        3: 'ICC-Absolute Colorimetric'},
    'mTyp': {0: 'direct use', 1: 'palette mapping'},
    'cTyp': {0: 'colour', 1: 'opacity', 2: 'premultiplied opacity', 3: 'application-defined',
             65535: 'not specified'},
    'cAssoc': {0: 'all colours', 65535: 'no colours'},
    'precincts': {0: 'default', 1: 'user defined'},
    'order': {0: 'LRCP', 1: 'RLCP', 2: 'RPCL', 3: 'PCRL', 4: 'CPRL'},
    'transformation': {0: '9-7 irreversible', 1: '5-3 reversible'},
    'roiStyle': {0: 'Implicit ROI (maximum shift)'},
    'qStyle': {0: 'no quantization', 1: 'scalar derived', 2: 'scalar expounded'},
    'rcom': {0: 'binary', 1: 'ISO/IEC 8859-15 (Latin)'},
    'htCodeBlocks': {0: 'HTONLY', 0x8000: 'HTDECLARED', 0xC000: 'MIXED'},
    'htSets': {0: 'SINGLEHT', 1: 'MULTIHT'},
    'htRegion': {0: 'RGNFREE', 1: 'RGN'},
    'htHomogeneous': {0: 'HOMOGENEOUS', 1: 'HETEROGENEOUS'},
    'htReversible': {0: 'HTREV', 1: 'HTIRV'},
}


def xml_text(s):
    """Text as the report can carry it: control characters and non-XML characters dropped."""
    return ''.join(ch for ch in s if ch in '\t\n\r' or
                   not (unicodedata.category(ch) in ('Cc', 'Cs') or ch in '\ufffe\uffff'))


def decode_text(b):
    try:
        return xml_text(b.decode('utf-8'))
    except UnicodeDecodeError:
        return ''


def eol(s):
    """Line ends as an XML reader sees them."""
    return s.replace('\r\n', '\n').replace('\r', '\n') if '\r' in s else s


def show(name, value):
    """Expected text of a property: str, or an object with matches()."""
    if hasattr(value, 'matches'):
        return value
    try:
        value = TEXT.get(name, {}).get(value, value)
    except TypeError:
        pass
    if isinstance(value, bytes):
        return eol(decode_text(value))
    if isinstance(value, int):
        if value.bit_length() > 13000:
            return BigInt(value)
        return str(value)
    return eol(xml_text(value))


class BigInt:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '<big integer of %d bits>' % self.v.bit_length()

    def matches(self, text):
        import decimal
        try:
            return int(decimal.Decimal(text)) == self.v
        except (ValueError, ArithmeticError):
            return False


# --------------------------------------------------------------------------------------------------
# Reading

def u(data, off, n):
    """Big-endian unsigned integer of n bytes at off, or MISSING."""
    b = data[off:off + n] if off >= 0 else b''
    return int.from_bytes(b, 'big') if len(b) == n else MISSING


def bit(v, n):
    """Bit n of v, counted from the least significant one (0)."""
    return (v >> n) & 1


class Ctx:
    def __init__(self, fmt, packetmarkers, nullxml):
        self.fmt, self.packetmarkers, self.nullxml = fmt, packetmarkers, nullxml
        self.htj2k = fmt in ('jph', 'jhc')


# --------------------------------------------------------------------------------------------------
# Boxes

BOXES = {b'jp2i': 'intellectualPropertyBox', b'xml ': 'xmlBox', b'uuid': 'uuidBox', b'uinf': 'uuidInfoBox',
         b'jP  ': 'signatureBox', b'ftyp': 'fileTypeBox', b'jp2h': 'jp2HeaderBox',
         b'ihdr': 'imageHeaderBox', b'bpcc': 'bitsPerComponentBox', b'colr': 'colourSpecificationBox',
         b'pclr': 'paletteBox', b'cmap': 'componentMappingBox', b'cdef': 'channelDefinitionBox',
         b'res ': 'resolutionBox', b'jp2c': 'contiguousCodestreamBox', b'resc': 'captureResolutionBox',
         b'resd': 'displayResolutionBox', b'ulst': 'uuidListBox', b'url ': 'urlBox'}


def split_boxes(data):
    """Boxes of a container as (type, contents)."""
    out, pos = [], 0
    while pos < len(data):
        lbox, typ, head = u(data, pos, 4), data[pos + 4:pos + 8], 8
        if lbox == 1:
            lbox, head = u(data, pos + 8, 8), 16
        if lbox == 0:
            lbox = len(data) - pos
        if lbox == MISSING:
            # Length unreadable. All that can be said is that something is there.
            out.append((typ, None))
            break
        out.append((typ, data[pos + head:max(pos + lbox, pos + head)] if pos + lbox > pos + head else b''))
        pos += lbox
    return out


def box(ctx, typ, data, depth=0):
    tag = BOXES.get(bytes(typ))
    if tag is None:
        un = Unit('unknownBox')
        un.p('boxType', bytes(typ))
        un.warnings.append(decode_text(bytes(typ)))
        return un
    un = Unit(tag)
    if tag == 'intellectualPropertyBox':
        un.warnings.append('intellectualPropertyBox')
        return un
    if data is None:
        data = b''
    globals()['box_' + tag](ctx, un, data)
    return un


def children(ctx, un, data):
    types = []
    for typ, d in split_boxes(data):
        un.add(box(ctx, typ, d))
        types.append(bytes(typ))
    return types


def box_signatureBox(ctx, un, d):
    un.t('boxLengthIsValid', len(d) == 4)
    un.t('signatureIsValid', d[:4] == b'\r\n\x87\n')


def box_fileTypeBox(ctx, un, d):
    want = b'jp2 ' if ctx.fmt == 'jp2' else b'jph '
    un.t('boxLengthIsValid', len(d) % 4 == 0)
    un.p('br', d[:4])
    un.t('brandIsValid', d[:4] == want)
    un.p('minV', u(d, 4, 4))
    un.t('minorVersionIsValid', u(d, 4, 4) == 0)
    n = max(0, (len(d) - 8) // 4)
    cls = [d[8 + 4 * i:12 + 4 * i] for i in range(n)]
    for c in cls:
        un.p('cL', c)
    un.t('compatibilityListIsValid', want in cls)


def box_jp2HeaderBox(ctx, un, d):
    types = children(ctx, un, d)
    cnt = types.count
    ihdr = un.kid('imageHeaderBox')
    un.t('containsImageHeaderBox', b'ihdr' in types)
    colr = [i for i, t in enumerate(types) if t == b'colr']
    if ctx.fmt == 'jp2':
        un.t('containsColourSpecificationBox', colr)
    else:
        if ihdr is not None and ihdr.value('unkC') == 0:
            un.t('containsColourSpecificationBox', colr)
        if not colr:
            ctyps = [v for k in un.kids() if k.tag == 'channelDefinitionBox' for v in k.values('cTyp')]
            un.t('noZeroCTypesIfNoColourBox', 0 not in ctyps)
    if ihdr is not None and ihdr.value('bPCSign') == 1 and ihdr.value('bPCDepth') == 128:
        un.t('containsBitsPerComponentBox', b'bpcc' in types)
    un.t('firstJP2HeaderBoxIsImageHeaderBox', types[:1] == [b'ihdr'])
    for t, name in ((b'ihdr', 'ImageHeader'), (b'bpcc', 'BitsPerComponent'), (b'pclr', 'Palette'),
                    (b'cmap', 'ComponentMapping'), (b'cdef', 'ChannelDefinition'), (b'res ', 'Resolution')):
        un.t('noMoreThanOne%sBox' % name, cnt(t) <= 1)
    un.t('colourSpecificationBoxesAreContiguous', not colr or colr[-1] - colr[0] == len(colr) - 1)
    un.t('paletteAndComponentMappingBoxesOnlyTogether', (b'pclr' in types) == (b'cmap' in types))


def depth_field(un, v, sign, depth):
    un.p(sign, bit(v, 7))
    d = (v & 127) + 1
    un.p(depth, d)
    return d


def box_imageHeaderBox(ctx, un, d):
    un.t('boxLengthIsValid', len(d) == 14)
    h, w, nc = u(d, 0, 4), u(d, 4, 4), u(d, 8, 2)
    un.p('height', h)
    un.t('heightIsValid', h >= 1)
    un.p('width', w)
    un.t('widthIsValid', w >= 1)
    un.p('nC', nc)
    un.t('nCIsValid', 1 <= nc <= 16384)
    bpc = u(d, 10, 1)
    dep = depth_field(un, bpc, 'bPCSign', 'bPCDepth')
    un.t('bPCIsValid', dep <= 38 or bpc == 255)
    c, unk, ipr = u(d, 11, 1), u(d, 12, 1), u(d, 13, 1)
    un.p('c', c)
    un.t('cIsValid', c == 7)
    un.p('unkC', unk)
    un.t('unkCIsValid', unk in (0, 1))
    un.p('iPR', ipr)
    un.t('iPRIsValid', ipr in (0, 1))


def box_bitsPerComponentBox(ctx, un, d):
    for b in d:
        un.t('bPCIsValid', depth_field(un, b, 'bPCSign', 'bPCDepth') <= 38)


def box_colourSpecificationBox(ctx, un, d):
    meth, prec, approx = u(d, 0, 1), u(d, 1, 1), u(d, 2, 1)
    un.p('meth', meth)
    un.t('methIsValid', meth in ((1, 2) if ctx.fmt == 'jp2' else (1, 2, 3, 5)))
    un.p('prec', prec)
    un.t('precIsValid', prec == 0)
    un.p('approx', approx)
    un.t('approxIsValid', approx == 0)
    if meth == 1:
        cs = u(d, 3, 4) if len(d) == 7 else MISSING
        un.p('enumCS', cs)
        un.t('enumCSIsValid', cs in (16, 17, 18))
    elif meth in (2, 3):
        prof = icc(d[3:])
        un.add(prof)
        if meth == 2:
            un.t('iccSizeIsValid', prof.value('profileSize') == len(d[3:]))
            un.t('iccPermittedProfileClass', prof.value('profileClass') in (b'scnr', b'mntr'))
            un.t('iccNoLUTBasedProfile', b'A2B0' not in prof.values('tag'))
    elif meth == 5:
        allowed = {'colPrims': (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22),
                   'transfC': (1, 2) + tuple(range(4, 19)),
                   'matCoeffs': (0, 1, 2) + tuple(range(4, 15))}
        for i, name in enumerate(('colPrims', 'transfC', 'matCoeffs')):
            v = u(d, 3 + 2 * i, 2)
            un.p(name, v)
            if ctx.fmt == 'jph':
                un.t(name + 'IsValid', v in allowed[name])
        un.p('vidFRng', bit(u(d, 9, 1), 7))


def icc(d):
    un = Unit('icc')
    un.p('profileSize', u(d, 0, 4))
    un.p('preferredCMMType', d[4:8])
    major, minor = u(d, 8, 1), u(d, 9, 1)
    un.p('profileVersion', '%d.%d.%d' % (major, minor >> 4, minor & 15))
    un.p('profileClass', d[12:16])
    un.p('colourSpace', d[16:20])
    un.p('profileConnectionSpace', d[20:24])
    dt = [u(d, 24, 2)] + [u(d, o, 1) for o in (27, 29, 31, 33, 35)]
    un.p('dateTimeString', ANY if MISSING in dt else '%d/%02d/%02d, %02d:%02d:%02d' % tuple(dt))
    un.p('profileSignature', d[36:40])
    un.p('primaryPlatform', d[40:44])
    flags, attr = u(d, 44, 4), u(d, 56, 8)
    un.p('embeddedProfile', ANY if flags == MISSING else bit(flags, 0))
    un.p('profileCannotBeUsedIndependently', ANY if flags == MISSING else bit(flags, 1))
    un.p('deviceManufacturer', d[48:52])
    un.p('deviceModel', d[52:56])
    for i, name in enumerate(('transparency', 'glossiness', 'polarity', 'colour')):
        un.p(name, ANY if attr == MISSING else bit(attr, i))
    un.p('renderingIntent', u(d, 66, 2))
    for name, o in (('X', 68), ('Y', 72), ('Z', 76)):
        v = u(d, o, 4)
        un.p('connectionSpaceIlluminant' + name,
             ANY if v == MISSING or v >= 1 << 31 else Num(F(v, 65536), 4))
    un.p('profileCreator', d[80:84])
    un.p('profileID', d[84:100].hex())
    n = min(u(d, 128, 4), 4096)
    tags = []
    for i in range(max(n, 0)):
        o = 132 + 12 * i
        tags.append((d[o:o + 4], u(d, o + 4, 4), u(d, o + 8, 4)))
        un.p('tag', d[o:o + 4])
    desc = ''
    for sig, off, size in tags:
        if sig == b'desc':
            if off == MISSING or size == MISSING:
                desc = ANY
                break
            t = d[off:off + size]
            n = u(t, 8, 4)
            if n == MISSING or n == 0:
                desc = ANY           # description without a length
            else:
                desc = t[12:12 + n - 1]
            break
    un.p('description', desc)
    return un


def box_paletteBox(ctx, un, d):
    ne, npc = u(d, 0, 2), u(d, 2, 1)
    un.p('nE', ne)
    un.t('nEIsValid', 1 <= ne <= 1024)
    un.p('nPC', npc)
    un.t('nPCIsValid', 1 <= npc <= 255)
    depths = [(u(d, 3 + i, 1) & 127) + 1 for i in range(max(npc, 0))]
    width = [(b + 7) // 8 for b in depths]
    for i in range(max(npc, 0)):
        un.t('bDepthIsValid', depth_field(un, u(d, 3 + i, 1), 'bSign', 'bDepth') <= 38)
        for j in range(max(ne, 0)):
            # Table is stored entry by entry, values of all columns together
            v = u(d, 3 + npc + j * sum(width) + sum(width[:i]), width[i])
            if v == MISSING:
                break
            un.p('cP', v)


def box_componentMappingBox(ctx, un, d):
    for o in range(0, len(d) // 4 * 4, 4):
        cmp_, typ, col = u(d, o, 2), u(d, o + 2, 1), u(d, o + 3, 1)
        un.p('cMP', cmp_)
        un.t('cMPIsValid', 0 <= cmp_ <= 16384)
        un.p('mTyp', typ)
        un.t('mTypIsValid', typ in (0, 1))
        un.p('pCol', col)
        un.t('pColIsValid', typ != 0 or col == 0)


def box_channelDefinitionBox(ctx, un, d):
    n = u(d, 0, 2)
    un.p('n', n)
    un.t('nIsValid', n >= 1)
    un.t('boxLengthIsValid', len(d) == 2 + 6 * n)
    alpha = []
    for i in range(max(n, 0)):
        cn, typ, assoc = (u(d, 2 + 6 * i + 2 * k, 2) for k in range(3))
        un.p('cN', cn)
        un.t('cNIsValid', cn >= 0)
        un.p('cTyp', typ)
        un.t('cTypIsValid', typ in ((0, 1, 2, 65535) if ctx.fmt == 'jp2' else (0, 1, 2, 3, 65535)))
        un.p('cAssoc', assoc)
        un.t('cAssocIsValid', assoc >= 0)
        if typ in (1, 2):
            alpha.append(assoc)
    if ctx.fmt == 'jph':
        un.t('noMoreThanOneAlphaChannel', len(alpha) <= 1)
        for a in alpha:
            un.t('cAssocAlphaChannelIsZero', a == 0)


def box_resolutionBox(ctx, un, d):
    types = children(ctx, un, d)
    un.t('containsCaptureOrDisplayResolutionBox', b'resc' in types or b'resd' in types)
    un.t('noMoreThanOneCaptureResolutionBox', types.count(b'resc') <= 1)
    un.t('noMoreThanOneDisplayResolutionBox', types.count(b'resd') <= 1)


def resolution(un, d, k):
    un.t('boxLengthIsValid', len(d) == 10)
    val = {}
    for i, name in enumerate(('vR%sN', 'vR%sD', 'hR%sN', 'hR%sD')):
        val[name[0] + name[-1]] = v = u(d, 2 * i, 2)
        un.p(name % k, v)
        un.t(name % k + 'IsValid', v >= 1)
    for i, name in enumerate(('vR%sE', 'hR%sE')):
        v = u(d, 8 + i, 1)
        if v >= 128:
            v -= 256
        val[name[0] + 'E'] = v
        un.p(name % k, v)
        un.t(name % k + 'IsValid', v >= -128)
    for unit, factor in (('Meter', 1), ('Inch', F(254, 10000))):
        for a in 'vh':
            n, dd, e = val[a + 'N'], val[a + 'D'], val[a + 'E']
            un.p('%sRes%sInPixelsPer%s' % (a, k, unit),
                 ANY if dd <= 0 or n < 0 or e == MISSING else Num(F(n, dd) * F(10) ** e * factor, 2))


def box_captureResolutionBox(ctx, un, d):
    resolution(un, d, 'c')


def box_displayResolutionBox(ctx, un, d):
    resolution(un, d, 'd')


def xml_content(ctx, un, data):
    try:
        un.items.append(XET.fromstring(data))
        ok = True
    except (XET.ParseError, ValueError, LookupError):
        ok = False
        if ctx.nullxml:
            try:
                un.items.append(XET.fromstring(data.rstrip(b'\0')))
            except (XET.ParseError, ValueError, LookupError):
                pass
    un.t('containsWellformedXML', ok)


def box_xmlBox(ctx, un, d):
    xml_content(ctx, un, d)


XMP = bytes.fromhex('be7acfcb97a942e89c71999491e3afac')


def uuid_text(b):
    h = b.hex()
    return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def box_uuidBox(ctx, un, d):
    un.t('boxLengthIsValid', len(d) > 16)
    if len(d) < 16:
        return
    if d[:16] == XMP:
        xml_content(ctx, un, d[16:])
    else:
        un.p('uuid', uuid_text(d[:16]))


def box_uuidInfoBox(ctx, un, d):
    types = children(ctx, un, d)
    un.t('containsOneListBox', types.count(b'ulst') == 1)
    un.t('containsOneURLBox', types.count(b'url ') == 1)


def box_uuidListBox(ctx, un, d):
    n = u(d, 0, 2)
    un.p('nU', n)
    un.t('boxLengthIsValid', len(d) == 2 + 16 * n)
    for i in range(max(n, 0)):
        b = d[2 + 16 * i:18 + 16 * i]
        if len(b) < 16:
            break
        un.p('uuid', uuid_text(b))


def box_urlBox(ctx, un, d):
    un.p('version', u(d, 0, 1))
    un.t('versionIsValid', u(d, 0, 1) == 0)
    un.t('flagIsValid', d[1:4] == b'\0\0\0')
    loc = d[4:]
    un.t('locHasNullTerminator', loc[-1:] == b'\0')
    loc = loc.rstrip(b'\0')
    try:
        loc.decode('utf-8')
        un.t('locIsUTF8', True)
    except UnicodeDecodeError:
        un.t('locIsUTF8', False)
    un.p('loc', loc)


# --------------------------------------------------------------------------------------------------
# Codestream

def segment(d, off):
    """Marker, contents (starting with the length field) and offset of next marker (None: unknown)."""
    if off is None:
        return None, b'', None
    m = d[off:off + 2]
    if m in (b'\xff\x4f', b'\xff\x93', b'\xff\xd9', b'\xff\x92'):
        return m, b'', off + 2
    n = u(d, off + 2, 2)
    if n == MISSING:
        return m, b'', None
    return m, d[off + 2:off + 2 + n], off + 2 + n


SEG = {b'\xff\x50': 'cap', b'\xff\x56': 'prf', b'\xff\x59': 'cpf', b'\xff\x52': 'cod', b'\xff\x53': 'coc',
       b'\xff\x5e': 'rgn', b'\xff\x5c': 'qcd', b'\xff\x5d': 'qcc', b'\xff\x5f': 'poc', b'\xff\x63': 'crg',
       b'\xff\x64': 'com', b'\xff\x55': 'tlm', b'\xff\x57': 'plm', b'\xff\x60': 'ppm', b'\xff\x58': 'plt',
       b'\xff\x61': 'ppt'}
MAIN = {'cap', 'prf', 'cpf', 'cod', 'coc', 'rgn', 'qcd', 'qcc', 'poc', 'crg', 'com', 'tlm', 'plm', 'ppm'}
TILE = {'cod', 'coc', 'rgn', 'qcd', 'qcc', 'poc', 'com', 'plt', 'ppt'}


def seg_unit(ctx, name, d, csiz):
    un = Unit(name)
    globals()['seg_' + name](ctx, un, d, csiz)
    if name in ('plm', 'ppm', 'plt', 'ppt'):
        un.hidden = not ctx.packetmarkers
    return un


def box_contiguousCodestreamBox(ctx, un, d):
    m, _, nxt = segment(d, 0)
    un.t('codestreamStartsWithSOCMarker', m == b'\xff\x4f')
    m, c, nxt = segment(d, nxt)
    un.t('foundSIZMarker', m == b'\xff\x51')
    if m != b'\xff\x51':
        return
    siz = Unit('siz')
    seg_siz(ctx, siz, c, None)
    un.add(siz)
    csiz = siz.value('csiz')
    found = set()
    count = {'plm': 0, 'ppm': 0}
    off = nxt
    while off is not None:
        m, c, nxt = segment(d, off)
        if m == b'\xff\x90':
            break
        name = SEG.get(bytes(m))
        if name in MAIN:
            un.add(seg_unit(ctx, name, c, csiz))
            found.add(name)
            if name in count:
                count[name] += 1
        off = nxt
    in_tiles = m == b'\xff\x90'
    un.p('ppmCount', count['ppm'])
    un.p('plmCount', count['plm'])
    un.t('foundCODMarker', 'cod' in found)
    un.t('foundQCDMarker', 'qcd' in found)
    rsiz = siz.value('rsiz')
    if rsiz != MISSING and rsiz >> 14 == 1:
        un.t('foundCAPMarker', 'cap' in found)

    # Tile-parts
    tiles = min(siz.value('numberOfTiles'), 65535)
    parts, announced, seen = {}, {}, []
    tps = Unit('tileParts')
    while in_tiles:
        tp = Unit('tilePart')
        psot = tile_part(ctx, tp, d, off, csiz)
        tps.add(tp)
        sot = tp.kid('sot')
        isot, tnsot = sot.value('isot'), sot.value('tnsot')
        if isot not in seen:
            seen.append(isot)
        if tnsot != 0:
            announced[isot] = tnsot
        if not 0 <= isot < tiles:
            break
        parts[isot] = parts.get(isot, 0) + 1
        if psot <= 0:
            break
        off += psot
        in_tiles = d[off:off + 2] == b'\xff\x90'
    un.t('foundExpectedNumberOfTiles', len(seen) == tiles and all(0 <= i < tiles for i in seen))
    if announced:
        # every tile that announces a number has that many, and no tile is absent
        un.t('foundExpectedNumberOfTileParts',
             all(parts.get(i, 0) == n and i < tiles for i, n in announced.items()) and
             all(i in parts for i in range(tiles)))
    un.add(tps)
    for seg, field, test in (('coc', 'ccoc', 'maxOneCcocPerComponentMain'),
                             ('qcc', 'cqcc', 'maxOneCqccPerComponentMain')):
        unique(un, seg, field, test)
    un.t('foundEOCMarker', len(d) >= 2 and d[-2:] == b'\xff\xd9')
    if ctx.fmt in ('j2c', 'jhc'):
        un.p('compressionRatio', ratio(siz.values('ssizDepth'), siz.value('ysiz') - siz.value('yOsiz'),
                                       siz.value('xsiz') - siz.value('xOsiz'), len(d)))


def ratio(depths, h, w, size):
    return Num(F(sum(depths) * h * w, 8 * size), 2) if size else ANY


def unique(un, seg, field, test):
    vals = [k.value(field) for k in un.kids() if k.tag == seg]
    if vals:
        un.t(test, len(set(vals)) == len(vals))


def tile_part(ctx, un, d, start, csiz):
    _, c, nxt = segment(d, start)
    sot = Unit('sot')
    seg_sot(ctx, sot, c, csiz)
    un.add(sot)
    psot = sot.value('psot')
    end = start + psot if psot > 0 else len(d)
    count = {'plt': 0, 'ppt': 0}
    off, sod = nxt, False
    while off is not None and off < end:
        m, c, off = segment(d, off)
        if m == b'\xff\x93':
            sod = True
            break
        name = SEG.get(bytes(m))
        if name in TILE:
            un.add(seg_unit(ctx, name, c, csiz))
            if name in count:
                count[name] += 1
    un.t('foundSODMarker', sod)
    un.p('pltCount', count['plt'])
    un.p('pptCount', count['ppt'])
    names = [k.tag for k in un.kids()]
    for name in ('cod', 'coc', 'qcd', 'qcc', 'rgn'):
        if name in names:
            un.t(name.upper() + 'Allowed', sot.value('tpsot') == 0)
    unique(un, 'coc', 'ccoc', 'maxOneCcocPerComponentTP')
    unique(un, 'qcc', 'cqcc', 'maxOneCqccPerComponentTP')
    if psot != 0:
        nxt2 = d[start + psot:start + psot + 2] if psot > 0 else b''
        un.t('foundNextTilePartOrEOC', nxt2 in (b'\xff\x90', b'\xff\xd9'))
    return psot


def seg_sot(ctx, un, d, csiz):
    lsot, isot, psot, tp, tn = u(d, 0, 2), u(d, 2, 2), u(d, 4, 4), u(d, 8, 1), u(d, 9, 1)
    un.p('lsot', lsot)
    un.t('lsotIsValid', lsot == 10)
    un.p('isot', isot)
    un.t('isotIsValid', 0 <= isot <= 65534)
    un.p('psot', psot)
    un.t('psotIsValid', not 1 <= psot <= 13)
    un.p('tpsot', tp)
    un.t('tpsotIsValid', 0 <= tp <= 254)
    un.p('tnsot', tn)


PROFILE0 = {0: 'ISO/IEC 15444-1', 1: 'Profile 0', 2: 'Profile 1', 3: '2K digital cinema profile',
            4: '4K digital cinema profile', 5: 'Scalable 2K digital cinema profile',
            6: 'Scalable 4K digital cinema profile', 7: 'Long-term storage profile'}
BROADCAST = {1: 'Single Tile', 2: 'Multi-tile', 3: 'Multi-tile Reversible'}
IMF = {4: '2k IMF Single Tile Lossy', 5: '4k IMF Single Tile Lossy', 6: '8k IMF Single Tile Lossy',
       7: '2k IMF Single/Multi Tile Reversible', 8: '4k IMF Single/Multi Tile Reversible',
       9: '8k IMF Single/Multi Tile Reversible'}
UNKNOWN_CAP = 'Unknown (value not defined in ISO/IEC 15444-1)'


def capability(rsiz):
    if rsiz == MISSING:
        return ANY
    ext, prof, sub, main = rsiz >> 14, (rsiz >> 8) & 15, (rsiz >> 4) & 15, rsiz & 15
    if ext:
        return {1: 'CAP', 2: 'ISO/IEC 15444-2', 3: 'ISO/IEC 15444-2 + CAP'}[ext]
    if prof == 0:
        return PROFILE0.get(main, UNKNOWN_CAP)
    if prof in BROADCAST:
        return 'Broadcast Contribution %s Profile, Mainlevel %d' % (BROADCAST[prof], main)
    if prof in IMF:
        return '%s Profile, Mainlevel %d; Sublevel %d' % (IMF[prof], main, sub)
    if rsiz & 0xfff == 0xfff:
        return 'Profile signalled in Profile Marker'
    return UNKNOWN_CAP


def seg_siz(ctx, un, d, csiz):
    lsiz, rsiz = u(d, 0, 2), u(d, 2, 2)
    un.p('lsiz', lsiz)
    un.t('lsizIsValid', 41 <= lsiz <= 49190)
    un.p('rsiz', rsiz)
    un.t('rsizIsValid', bit(rsiz, 14) == 1 if ctx.htj2k else 0 <= rsiz < 0x1000)
    un.p('capability', capability(rsiz))
    g = {}
    for i, name in enumerate(('xsiz', 'ysiz', 'xOsiz', 'yOsiz', 'xTsiz', 'yTsiz', 'xTOsiz', 'yTOsiz')):
        g[name] = v = u(d, 4 + 4 * i, 4)
        un.p(name, v)
        if 'O' in name:
            un.t(name + 'IsValid', 0 <= v <= 2 ** 32 - 2)
        else:
            un.t(name + 'IsValid', 1 <= v <= 2 ** 32 - 1)
    if g['xTsiz'] and g['yTsiz']:
        nx = -((g['xTOsiz'] - g['xsiz']) // g['xTsiz'])
        ny = -((g['yTOsiz'] - g['ysiz']) // g['yTsiz'])
        n = nx * ny
    else:
        n = 0
    un.p('numberOfTiles', n)
    csiz = u(d, 36, 2)
    un.p('csiz', csiz)
    un.t('csizIsValid', 1 <= csiz <= 16384)
    un.t('lsizConsistentWithCsiz', lsiz == 38 + 3 * csiz)
    for i in range(max(csiz, 0)):
        o = 38 + 3 * i
        un.t('ssizIsValid', depth_field(un, u(d, o, 1), 'ssizSign', 'ssizDepth') <= 38)
        for k, name in ((1, 'xRsiz'), (2, 'yRsiz')):
            v = u(d, o + k, 1)
            un.p(name, v)
            un.t(name + 'IsValid', 1 <= v)


def coding(ctx, un, d, o, precincts):
    """Code block, transform and precinct fields shared by COD and COC; o: offset of levels field."""
    levels = u(d, o, 1)
    w, h, style, tr = (u(d, o + i, 1) for i in (1, 2, 3, 4))
    missing = MISSING in (w, h)
    un.p('codeBlockWidth', ANY if w == MISSING else 2 ** (w + 2))
    un.t('codeBlockWidthExponentIsValid', 0 <= w <= 8)
    un.p('codeBlockHeight', ANY if h == MISSING else 2 ** (h + 2))
    un.t('codeBlockHeightExponentIsValid', 0 <= h <= 8)
    un.t('sumHeightWidthExponentIsValid', missing or w + h <= 8)
    only_ht = ctx.htj2k and style & 0xC0 == 0x40
    for i, (name, always) in enumerate((('codingBypass', 1), ('resetOnBoundaries', 0), ('termOnEachPass', 1),
                                        ('vertCausalContext', 1), ('predTermination', 0),
                                        ('segmentationSymbols', 0))):
        if always or not only_ht:
            un.p(name, bit(style, i))
    un.p('transformation', tr)
    un.t('transformationIsValid', tr in (0, 1))
    for i in range(levels + 1):
        if precincts:
            v = u(d, o + 5 + i, 1)
            for name, e in (('precinctSizeX', v & 15), ('precinctSizeY', (v >> 4) & 15)):
                un.p(name, 2 ** e)
                un.t(name + 'IsValid', i == 0 or e > 0)
        else:
            un.p('precinctSizeX', 32768)
            un.p('precinctSizeY', 32768)


def seg_cod(ctx, un, d, csiz):
    lcod, s = u(d, 0, 2), u(d, 2, 1)
    un.p('lcod', lcod)
    un.t('lcodIsValid', 12 <= lcod <= 45)
    pre = bit(s, 0)
    un.p('precincts', pre)
    un.p('sop', bit(s, 1))
    un.p('eph', bit(s, 2))
    order, layers, mct, levels = u(d, 3, 1), u(d, 4, 2), u(d, 6, 1), u(d, 7, 1)
    un.p('order', order)
    un.t('orderIsValid', 0 <= order <= 4)
    un.p('layers', layers)
    un.t('layersIsValid', layers >= 1)
    un.p('multipleComponentTransformation', mct)
    un.t('multipleComponentTransformationIsValid', mct in (0, 1))
    un.p('levels', levels)
    un.t('levelsIsValid', 0 <= levels <= 32)
    un.t('lcodConsistencyCheck', lcod == (13 + levels if pre else 12))
    coding(ctx, un, d, 7, pre)


def seg_coc(ctx, un, d, csiz):
    wide = csiz >= 257
    lcoc = u(d, 0, 2)
    un.p('lcoc', lcoc)
    un.t('lcocIsValid', 9 <= lcoc <= 43)
    n = 2 if wide else 1
    c = u(d, 2, n)
    un.p('ccoc', c)
    un.t('ccocIsValid', 0 <= c <= (16383 if wide else 255))
    pre = bit(u(d, 2 + n, 1), 0)
    un.p('precincts', pre)
    levels = u(d, 3 + n, 1)
    un.p('levels', levels)
    un.t('levelsIsValid', 0 <= levels <= 32)
    un.t('lcocConsistencyCheck', lcoc == (9 + levels if pre else 8) + n)
    coding(ctx, un, d, 3 + n, pre)


def seg_rgn(ctx, un, d, csiz):
    n = 2 if csiz >= 257 else 1
    l, c, st, sh = u(d, 0, 2), u(d, 2, n), u(d, 2 + n, 1), u(d, 3 + n, 1)
    un.p('lrgn', l)
    un.t('lrgnIsValid', 5 <= l <= 6)
    un.p('crgn', c)
    un.t('crgnIsValid', 0 <= c <= (16383 if n == 2 else 255))
    un.p('roiStyle', st)
    un.t('roiStyleIsValid', st == 0)
    un.p('roiShift', sh)
    un.t('roiShiftIsValid', 0 <= sh <= (37 if ctx.htj2k else 255))


def quantization(un, d, o, length, fixed):
    """o: offset of style byte; fixed: length of the segment without step sizes of the levels."""
    s = u(d, o, 1)
    style = s & 31
    un.p('qStyle', style)
    un.t('qStyleIsValid', style in (0, 1, 2))
    un.p('guardBits', (s >> 5) & 7)
    o += 1
    if style == 0:
        # no quantization: one exponent per byte, 3 * levels + 1 bytes
        for i in range(max(0, (length - fixed - 1) // 3)):
            un.p('epsilon', (u(d, o + i, 1) >> 3) & 31)
    else:
        n = 1 if style == 1 else max(0, (length - fixed - 2) // 6) if style == 2 else 0
        for i in range(n):
            v = u(d, o + 2 * i, 2)
            un.p('mu', v & 2047)
            un.p('epsilon', (v >> 11) & 31)


def seg_qcd(ctx, un, d, csiz):
    l = u(d, 0, 2)
    un.p('lqcd', l)
    un.t('lqcdIsValid', 4 <= l <= 197)
    quantization(un, d, 2, l, 3)


def seg_qcc(ctx, un, d, csiz):
    l = u(d, 0, 2)
    un.p('lqcc', l)
    un.t('lqccIsValid', 5 <= l <= 199)
    n = 2 if csiz >= 257 else 1
    un.p('cqcc', u(d, 2, n))
    quantization(un, d, 2 + n, l, 3 + n)


def seg_poc(ctx, un, d, csiz):
    l = u(d, 0, 2)
    un.p('lpoc', l)
    un.t('lpocIsValid', 9 <= l <= 65535)
    n = 2 if csiz >= 257 else 1
    top = 16384 if n == 2 else 255
    size = 5 + 2 * n
    for i in range(max(0, (l - 2) // size)):
        o = 2 + i * size
        rs, cs, ly = u(d, o, 1), u(d, o + 1, n), u(d, o + 1 + n, 2)
        re_, ce, order = u(d, o + 3 + n, 1), u(d, o + 4 + n, n), u(d, o + 4 + 2 * n, 1)
        un.p('rspoc', rs)
        un.t('rspocIsValid', 0 <= rs <= 32)
        un.p('cspoc', cs)
        un.t('cspocIsValid', 0 <= cs <= (16383 if n == 2 else 255))
        un.p('lyepoc', ly)
        un.t('lyepocIsValid', ly >= 1)
        un.p('repoc', re_)
        un.t('repocIsValid', rs < re_ <= 33)
        un.p('cepoc', ce)
        un.t('cepocIsValid', cs < ce <= top or ce == 0)
        un.p('order', order)
        un.t('orderIsValid', 0 <= order <= 4)


def seg_crg(ctx, un, d, csiz):
    l = u(d, 0, 2)
    un.p('lcrg', l)
    un.t('lcrgIsValid', 6 <= l <= 65534)
    for i in range(max(csiz, 0)):
        for k, name in ((0, 'xcrg'), (2, 'ycrg')):
            v = u(d, 2 + 4 * i + k, 2)
            un.p(name, v)
            un.t(name + 'IsValid', v >= 0)


def seg_com(ctx, un, d, csiz):
    l, r = u(d, 0, 2), u(d, 2, 2)
    un.p('lcom', l)
    un.t('lcomIsValid', 5 <= l)
    un.p('rcom', r)
    un.t('rcomIsValid', r in (0, 1))
    text = d[4:max(l, 0)]
    if r == 0:
        ok, out = True, text.hex()
    elif r == 1:
        out = text.decode('iso-8859-15')
        # Latin text: no control characters other than tab, line feed, carriage return
        ok = all(b in (9, 10, 13) or 32 <= b <= 126 or b >= 160 for b in text)
    else:
        ok, out = False, ''
    un.t('commentIsValid', ok)
    if ok:
        un.p('comment', out)


def seg_cap(ctx, un, d, csiz):
    l, pcap = u(d, 0, 2), u(d, 2, 4)
    un.p('lcap', l)
    parts = [i for i in range(1, 33) if bit(pcap, 32 - i)]
    for i in parts:
        un.p('pcapPart', i)
    un.t('lcapIsValid', l == 6 + 2 * len(parts))
    if not ctx.htj2k:
        return
    un.t('pcap15IsValid', 15 in parts)
    if 15 in parts:
        c = u(d, 6 + 2 * parts.index(15), 2)
        un.p('htCodeBlocks', c & 0xC000)
        un.p('htSets', bit(c, 13))
        un.p('htRegion', bit(c, 12))
        un.p('htHomogeneous', bit(c, 11))
        un.p('htReversible', bit(c, 5))
        p = c & 31
        un.p('htB', 8 + p if p <= 19 else 74 if p == 31 else 4 * (p - 19) + 27)


def profile_number(un, d, l, base):
    vals = [u(d, 2 + 2 * i, 2) for i in range(max(0, (l - 2) // 2))]
    num = ANY if MISSING in vals else base + sum(v << (16 * i) for i, v in enumerate(vals))
    return vals, num


def seg_prf(ctx, un, d, csiz):
    l = u(d, 0, 2)
    un.p('lprf', l)
    un.t('lprfIsValid', 4 <= l <= 65534)
    vals, num = profile_number(un, d, l, 4095)
    if vals:
        un.t('pprfIsValid', vals[-1] != 0)
    un.t('PRFnumIsValid', sum(v << (16 * i) for i, v in enumerate(vals)) > 0)
    un.p('PRFnum', num)


def seg_cpf(ctx, un, d, csiz):
    l = u(d, 0, 2)
    un.p('lcpf', l)
    vals, num = profile_number(un, d, l, -1)
    if ctx.htj2k:
        un.t('lcpfIsValid', 4 <= l <= 65534)
        if vals:
            un.t('pcpfIsValid', vals[-1] != 0)
    un.p('CPFnum', num)


def seg_tlm(ctx, un, d, csiz):
    pass


seg_ppm = seg_ppt = seg_tlm


def packet_lengths(b):
    out, cur = [], 0
    pending = False
    for x in b:
        cur = cur << 7 | x & 127
        pending = x >= 128
        if not pending:
            out.append(cur)
            cur = 0
    return HexList(out, pending)


def seg_plm(ctx, un, d, csiz):
    un.p('lplm', u(d, 0, 2))
    un.p('zplm', u(d, 2, 1))
    un.p('nplm', u(d, 3, 1))
    # One series of lengths; a segment may hold further ones (count and lengths each), on which the layout of the report is silent
    un.p('iplm', ANY if 0 <= u(d, 3, 1) < len(d) - 4 else packet_lengths(d[4:]))


def seg_plt(ctx, un, d, csiz):
    un.p('lplt', u(d, 0, 2))
    un.p('zplt', u(d, 2, 1))
    un.p('iplt', packet_lengths(d[3:]))


# --------------------------------------------------------------------------------------------------
# Whole files

def file_jp2(ctx, un, d):
    types = children(ctx, un, d)
    cnt = types.count
    un.t('containsSignatureBox', b'jP  ' in types)
    un.t('containsFileTypeBox', b'ftyp' in types)
    un.t('containsJP2HeaderBox', b'jp2h' in types)
    un.t('containsContiguousCodestreamBox', b'jp2c' in types)
    ihdr = first_path(un, 'jp2HeaderBox', 'imageHeaderBox')
    if ihdr is not None and ihdr.value('iPR') == 1:
        un.t('containsIntellectualPropertyBox', b'jp2i' in types)
    un.t('firstBoxIsSignatureBox', types[:1] == [b'jP  '])
    un.t('secondBoxIsFileTypeBox', types[1:2] == [b'ftyp'])
    un.t('locationJP2HeaderBoxIsValid', b'jp2h' in types and b'jp2c' in types and
         1 < types.index(b'jp2h') < types.index(b'jp2c'))
    un.t('noMoreThanOneSignatureBox', cnt(b'jP  ') <= 1)
    un.t('noMoreThanOneFileTypeBox', cnt(b'ftyp') <= 1)
    un.t('noMoreThanOneJP2HeaderBox', cnt(b'jp2h') <= 1)
    siz = first_path(un, 'contiguousCodestreamBox', 'siz')
    if ihdr is None or siz is None:
        return
    h, w, nc = ihdr.value('height'), ihdr.value('width'), ihdr.value('nC')
    un.t('heightConsistentWithSIZ', h == siz.value('ysiz') - siz.value('yOsiz'))
    un.t('widthConsistentWithSIZ', w == siz.value('xsiz') - siz.value('xOsiz'))
    un.t('nCConsistentWithSIZ', nc == siz.value('csiz'))
    sign, depth = ihdr.value('bPCSign'), ihdr.value('bPCDepth')
    if sign == 1 and depth == 128:
        bpcc = first_path(un, 'jp2HeaderBox', 'bitsPerComponentBox')
        signs = bpcc.values('bPCSign') if bpcc else []
        depths = bpcc.values('bPCDepth') if bpcc else []
    else:
        signs, depths = [sign] * max(nc, 0), [depth] * max(nc, 0)
    un.t('bPCSignConsistentWithSIZ', signs == siz.values('ssizSign'))
    un.t('bPCDepthConsistentWithSIZ', depths == siz.values('ssizDepth'))
    un.p('compressionRatio', ratio(depths, h, w, len(d)))


def first_path(un, *path):
    """First element matching the path (over all elements of that name, as a path expression)."""
    level = [un]
    for tag in path:
        level = [k for x in level for k in x.kids() if k.tag == tag]
    return level[0] if level else None


def expect(data, fmt='jp2', packetmarkers=False, nullxml=False):
    """Expected report (root unit) of a file with these contents."""
    ctx = Ctx(fmt, packetmarkers, nullxml)
    root = Unit('root')
    if fmt in ('jp2', 'jph'):
        file_jp2(ctx, root, data)
    else:
        box_contiguousCodestreamBox(ctx, root, data)
    if not data:
        root.warnings.append('empty file')
    return root
