"""Embedded XML, UUID and URL metadata is reported faithfully"""
import itertools
from struct import pack

from .. import build as B
from .. import features as F
from .. import scale
from ..common import BYTE_EDGE, content_space, file_space, sequences
from .c15 import XMLS

FMT = ('jp2', 'jph')


def xml_file(fmt, content, where):
    """where: 0 XML box before the header, 1 XMP before it, 2 XML box after the codestream, 3 XMP there, 4 both."""
    x, m = B.box(b'xml ', content), B.box(b'uuid', B.XMP + content)
    if where == 0:
        return B.jp2(fmt, before=x)
    if where == 1:
        return B.jp2(fmt, before=m)
    if where == 2:
        return B.jp2(fmt, after=x)
    if where == 3:
        return B.jp2(fmt, after=m)
    return B.jp2(fmt, before=x, mid=m, after=x)


def build_xml(case):
    content, where, null = case
    fmt = FMT[(len(content) + where) % 2]
    return xml_file(fmt, content, where), fmt, dict(nullxml=null, verbose=null == (where % 2 == 0))


def all4(it):
    """Each content in XML box and XMP box, with and without the option."""
    def cases():
        for c in it():
            for where in (0, 1):
                for null in (False, True):
                    yield c, where, null
    return cases


def tokens(depth):
    """All short sequences of XML tokens (most are not well-formed)."""
    toks = (b'<a>', b'</a>', b'<b/>', b't', b' ', b'&amp;', b'\0', b'<!---->')

    def cases():
        for s in sequences(toks, depth):
            yield b''.join(s)
    return all4(cases)


def chars(depth):
    """All short byte strings over structural characters, alone and within an element."""
    al = b'<>/a&; "=\0'

    def cases():
        for s in sequences(al, depth):
            yield bytes(s)
            yield b'<a>' + bytes(s) + b'</a>'
            yield b'<a ' + bytes(s) + b'/>'
    return all4(cases)


def positions():
    """Every byte value at every kind of position."""
    def cases():
        for v in range(256):
            c = bytes((v,))
            for t in (b'%s', b'%s<a/>', b'<%sa/>', b'<a%s/>', b'<a/%s>', b'<a>%s</a>', b'<a b="%s"/>', b'<a b%s="1"/>', b'<a/>%s',
                      b'<a><!--%s--></a>', b'<a><![CDATA[%s]]></a>', b'<a><?p%s?></a>', b'<a>&#%s;</a>', b'<a/>\0%s', b'<a>\xc3%s</a>',
                      b'<a>\xe2\x82%s</a>', b'<?xml version="1.0" encoding="ISO-8859-1"?><a>%s</a>', b'<a/%s\0'):
                yield t % c
    return all4(cases)


def encodings():
    text = '<a>x\u00e9<b c="\u00e9"/></a>'
    names = ('', 'UTF-8', 'utf-8', 'UTF-16', 'UTF-16LE', 'UTF-16BE', 'ISO-8859-1', 'US-ASCII', 'windows-1252', 'bogus', 'UTF-7', 'idna', 'hex')
    codecs = ('utf-8', 'utf-8-sig', 'utf-16', 'utf-16-le', 'utf-16-be', 'latin-1', 'utf-32')

    def cases():
        for n in names:
            for c in codecs:
                for t in (text, '<a/>'):
                    for v in ('1.0', '1.1', '2.0'):
                        d = ('<?xml version="%s"%s?>' % (v, ' encoding="%s"' % n if n else '') if n or v != '1.0' else '') + t
                        yield d.encode(c)
                        yield d.encode(c) + b'\0'
                        yield d.encode(c) + b'\0\0'
    return all4(cases)


def terminators(t):
    def cases():
        for x in XMLS + ['<a>', 'x', '', '<a/><b/>', '<a/> ', ' <a/>', '<a/>\n']:
            x = x.encode('utf-8')
            for pre in (b'', b'\0'):
                for n in range(0, 5 if t else 4):
                    for post in (b'', b'\n', b'x', b'\0\0 \0'):
                        for where in range(5):
                            for null in (False, True):
                                yield pre + x + b'\0' * n + post, where, null
    return cases


def repeats():
    """Several XML and XMP boxes: order and number are kept."""
    docs = {'a': b'<a>1</a>', 'b': b'<b k="2"/>', 'n': b'<n/>\0', 'x': b'<x', 'e': b''}

    def cases():
        for n in range(1, 4):
            for ks in itertools.product('abnxe', repeat=n):
                for mask in itertools.product((0, 1), repeat=n):
                    yield ''.join(ks), mask, len(ks) % 2 == 1

    def build(case):
        ks, mask, null = case
        bs = b''.join(B.box(b'uuid', B.XMP + docs[k]) if m else B.box(b'xml ', docs[k]) for k, m in zip(ks, mask))
        return B.jp2(before=bs[:0] + bs, after=bs), 'jp2', dict(nullxml=null)
    return file_space('several boxes', 'sequences of up to 3 XML and XMP boxes with 5 contents', cases, build)


def depth_space(t):
    def cases():
        for d in range(0, 120 if not t else 300):
            for w in (1, 2, 5):
                yield d, w

    def build(case):
        d, w = case
        x = b''.join(b'<e%d a%d="%d">t%d' % (i % 7, i % 3, i, i) for i in range(d)) + b'<leaf/>' * w + \
            b''.join(b'</e%d>s' % (i % 7) for i in reversed(range(1, d))) + (b'</e0>' if d else b'')
        return B.jp2(before=B.box(b'xml ', x), after=B.box(b'uuid', B.XMP + x)), 'jp2'
    return file_space('nesting', 'elements nested up to %d levels with text and tails' % (300 if t else 120), cases, build)


# --- UUID boxes ---------------------------------------------------------------------------------------

def uuid_place(p, fmt, b):
    return B.jp2(fmt, before=B.box(b'uuid', p))


def near_xmp():
    """Identifiers that differ from XMP in one bit are not XMP."""
    def cases():
        for bit in range(128):
            u = bytearray(B.XMP)
            u[bit // 8] ^= 1 << (bit % 8)
            for c in (b'', b'<a/>', b'<a', b'\0'):
                yield bytes(u) + c
        for n in range(0, 24):
            yield (B.XMP + b'<a/>\0\0\0\0')[:n]
            yield (bytes(range(200, 224)))[:n]

    def build(c):
        return B.jp2(mid=B.box(b'uuid', c)), 'jp2', dict(nullxml=len(c) % 2 == 0)
    return file_space('identifiers near XMP', 'every single-bit change of the XMP identifier, with 4 contents, lengths 0 to 23', cases, build)


def ulst(t):
    def cases():
        for n in (0, 1, 2, 3, 4, 255, 256, 65535):
            for stored in range(0, 5):
                for part in (0, 1, 8, 15):
                    yield n, stored, part
        for n in (15, 16, 17, 200):
            yield n, n, 0

    def build(c):
        n, stored, part = c
        p = pack('>H', n) + bytes((i * 7 + 1) & 255 for i in range(16 * stored + part))
        return B.jp2(before=B.box(b'uinf', B.box(b'ulst', p) + B.URL), after=B.box(b'uinf', B.URL + B.box(b'ulst', p))), 'jp2'
    return file_space('UUID lists', 'announced counts against stored numbers of (partial) identifiers', cases, build)


def uinf(t):
    al = {'L': B.ULST, 'U': B.URL, 'u': B.UNKBOX, 'x': B.XMLBOX, 'M': B.box(b'ulst', pack('>H', 2) + bytes(32)), 'V': B.box(b'url ', b'\0\0\0\0y'),
          'N': B.box(b'uinf', B.ULST)}

    def cases():
        for s in sequences('LUuxMVN', 5 if t else 4):
            yield ''.join(s)

    def build(c):
        b = b''.join(al[x] for x in c)
        return B.jp2(before=B.box(b'uinf', b)), 'jp2'
    return file_space('UUID info', 'all sequences of up to %d sub-boxes out of 7' % (5 if t else 4), cases, build)


def url_strings(t):
    al = (0x00, 0x41, 0x7f, 0x80, 0xc3, 0xa9, 0xe2, 0xff, 0x3c, 0x20)
    depth = 4 if t else 3

    def cases():
        for s in sequences(al, depth):
            yield bytes(s)
            yield bytes(s) + b'\0'
        for v in range(256):
            c = bytes((v,))
            for f in (b'%s', b'%s\0', b'a%s\0', b'%sb\0', b'\xc3%s\0', b'\xe2%s\xac\0', b'\xf0\x9f%s\x80\0', b'http://x%s\0\0', b'\xed%s\x80\0',
                      b'\xc0%s\0', b'\xf4%s\x80\x80\0', b'x\0%s'):
                yield f % c
        for n in (100, 1000, 70000):
            yield b'x' * n + b'\0'
            yield b'x' * n

    def build(c):
        return B.jp2(before=B.box(b'uinf', B.ULST + B.box(b'url ', bytes(4) + c))), 'jp2', dict(verbose=len(c) % 2 == 0)
    return file_space('URL locations', 'all byte strings up to length %d over 10 values, every byte in 12 contexts' % depth, cases, build)


def spaces(tier):
    t = tier == 'thorough'
    uuid_base = [B.UUID1 + b'pay', B.XMP + b'<a b="1">t</a>', B.XMP + b'<a/>\0']
    out = [
        file_space('XML tokens', 'all sequences of up to %d of 8 tokens in XML and XMP boxes, with and without the option' % (5 if t else 3),
                   tokens(5 if t else 3), build_xml),
        file_space('XML characters', 'all strings of up to %d of 10 characters alone, within an element and within a tag' % (4 if t else 3),
                   chars(4 if t else 3), build_xml),
        file_space('XML byte values', 'every byte value at 18 kinds of position', positions(), build_xml),
        file_space('XML encodings', '13 declared encodings against 7 actual ones, 3 versions, null terminators', encodings(), build_xml),
        file_space('XML terminators', '%d documents with 0 to %d null bytes and other bytes around, 5 places, with and without the option' % (
            len(XMLS) + 7, 4 if t else 3), terminators(t), build_xml),
        repeats(), depth_space(t),
        F.space('features', F.OPTIONS + F.FILE + ('gap', 'hunk'), 4 if t else 3),
        content_space('UUID bytes', 'every byte of UUID and XMP boxes, every length, pairs of adjacent bytes', uuid_base, uuid_place, FMT,
                      single=range(256), pairs=(0, 1, 0x3c, 0x7f, 0xff) if t else (0, 255), pair_window=3 if t else 1, extend=6, nullxml=True),
        near_xmp(), ulst(t), uinf(t),
        content_space('UUID list bytes', 'every byte, every length', [pack('>H', 1) + B.UUID1, pack('>H', 2) + bytes(range(32))],
                      lambda p, f, b: B.jp2(f, after=B.box(b'uinf', B.box(b'ulst', p) + B.URL)), FMT if t else FMT[:1]),
        content_space('URL bytes', 'every byte, pairs over edge values, every length', [bytes(4) + b'http://x\0', bytes(4) + '\u00e9\u20ac'.encode() + b'\0'],
                      lambda p, f, b: B.jp2(f, before=B.box(b'uinf', B.ULST + B.box(b'url ', p))), FMT,
                      pairs=(0, 1, 0x41, 0x80, 0xff), pair_window=4),
        url_strings(t),
    ]
    out.append(scale.metadata(t))
    return out, ['well-formedness of embedded XML is decided by an XML parser (expat), as the standard defers to XML 1.0']
