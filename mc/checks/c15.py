"""Command line output is well-formed, schema-valid and complete"""
import itertools
import os
import re

from lxml import etree

from .. import build as B
from .. import cli, corpus, features as F, impl, spec
from ..common import FORMATS, FnSpace, content_cases, content, patch
from ..engine import Space
from . import c11, c14

XSI = '{http://www.w3.org/2001/XMLSchema-instance}'
_schema = None


def schema():
    """Schema published with the tool that the tool itself refers to."""
    global _schema
    if _schema is None:
        name = impl.jpylyzer().LOC_SCHEMA_STRING_2.split()[-1].rsplit('/', 1)[-1]
        _schema = etree.XMLSchema(etree.parse(os.path.join(impl.REPO, 'xsd', name)))
    return _schema


HEAD = ("<jpylyzer xmlns=\"%s\"><toolInfo><toolName>t</toolName><toolVersion>v</toolVersion></toolInfo>" % cli.NS)


def schema_errors(doc_bytes):
    s = schema()
    # namespace names of embedded XML are not the tool's business; the schema processor stumbles over odd ones
    doc_bytes = re.sub(rb'(xmlns:\w+)="(?!http|adobe)[^"]*"', rb'\1="urn:x"', doc_bytes)
    doc = etree.fromstring(doc_bytes)
    if s.validate(doc):
        return []
    return [str(e.message) for e in s.error_log][:3]


def document(R, r, paths, fmt, opts, pretty, what=''):
    """Everything that must hold for the output of one command."""
    if r.status != 0:
        R.fail('%sexit status %d: %s' % (what, r.status, r.err[-300:]))
        return
    doc = r.doc()
    R.outcome(r.out)
    if not r.out.startswith(b"<?xml version='1.0' encoding='UTF-8'?>"):
        R.fail(what + 'no XML declaration for UTF-8')
    if doc.tag != 'jpylyzer' or [e.tag for e in doc] != ['toolInfo'] + ['file'] * len(paths):
        R.fail('%sdocument has parts %s for %d files' % (what, [e.tag for e in doc], len(paths)))
        return
    tool = {e.tag: e.text for e in doc[0]}
    if not tool.get('toolName') or tool.get('toolVersion') != impl.jpylyzer().__version__:
        R.fail('%stool information %s' % (what, tool))
    loc = doc.get(XSI + 'schemaLocation', '').split()
    if len(loc) != 2 or loc[0] != cli.NS or not os.path.exists(os.path.join(impl.REPO, 'xsd', loc[1].rsplit('/', 1)[-1])):
        R.fail('%sschema location %s' % (what, loc))
    for i, (p, e) in enumerate(zip(paths, r.files())):
        want = cli.api_element(p, fmt=fmt, **opts)
        if cli.canon(e, pretty) != cli.canon(want, pretty):
            R.fail('%sreport %d (%s) differs from what the API returns' % (what, i, os.path.basename(p)))


OPTS = [dict(), dict(verbose=True, packetmarkers=True, nullxml=True, mix=2), dict(verbose=True), dict(mix=1)]


def sets_cases(t):
    names = list(corpus.everything())

    def cases():
        for n in names:
            for f in FORMATS:
                for o in range(len(OPTS)):
                    yield (n,), f, o
        few = names if t else names[::3]
        for a, b in itertools.product(few, repeat=2):
            yield (a, b), 'jp2', 0
            if t:
                yield (a, b), 'jhc', 1
        yield tuple(names), 'jp2', 1
        yield tuple(names), 'jhc', 0
        yield tuple(reversed(names)) + tuple(names), 'jph', 2
    return cases


def sets_run(case, R):
    names, fmt, o = case
    paths = []
    for n in names:
        d = corpus.everything()[n][1]
        paths.append(impl.put(d, n + '.img'))
        R.file(n + '.img', d)
    opts = dict(OPTS[o])
    if fmt in ('j2c', 'jhc'):
        opts.pop('mix', None)
    out = {}
    for pretty in (False, True):
        r = cli.run(cli.flags(fmt=fmt, pretty=pretty, **opts) + paths)
        R.execs += 1
        R.state(case, pretty)
        document(R, r, paths, fmt, opts, pretty, '%s: ' % ('pretty' if pretty else 'compact'))
    if len(names) == 1 and names[0] in corpus.valid() and corpus.valid()[names[0]][0] == fmt:
        R.traces += 1
        for e in schema_errors(r.out):
            R.fail('schema: ' + e)


class RealProcess(Space):
    """Ties the forked executions to those of an interpreter of its own."""
    name = 'own process'
    rule = 'commands run through cli.py in their own interpreter give the same output as in the forked one'

    def cases(self):
        for n in ('jp2', 'jp2-rich', 'jph-rich', 'j2c-rich', 'bad-empty', 'bad-nullxml', 'bad-text'):
            for f, o, pretty in (('jp2', 0, True), ('jph', 1, False), ('jhc', 2, True), ('jp2', 3, False)):
                yield (n,), cli.flags(fmt=f, pretty=pretty, **OPTS[o])
        yield ('jp2', 'bad-text', 'jp2-icc'), []
        yield ('nonexistent',), []
        yield ('jp2', 'nonexistent'), ['--verbose']
        yield (), []
        yield (), ['--version']
        yield ('jp2',), ['--format', 'xyz']
        yield ('jp2',), ['--format', 'JPH']
        yield ('jp2',), ['--mix', '3']
        yield ('jp2',), ['--recurse']

    def run(self, case, R):
        names, argv = case
        paths = []
        for n in names:
            if n == 'nonexistent':
                paths.append(os.path.join(impl.scratch(), n))
            else:
                paths.append(impl.put(corpus.everything()[n][1], n + '.img'))
        a = cli.run(argv + paths)
        b = cli.process(argv + paths)
        R.execs += 2
        R.traces += 1
        R.state(names, tuple(argv))
        R.outcome(b.out)
        if a.status != b.status:
            R.fail('exit status %d and %d' % (a.status, b.status))
        if b.out.startswith(b'<?xml'):
            x, y = a.doc(), b.doc()
            if cli.canon(x[0][1]) != cli.canon(y[0][1]) or [cli.canon(e) for e in x[1:]] != [cli.canon(e) for e in y[1:]]:
                R.fail('outputs differ')
            if y[0].findtext('toolName') not in ('cli.py', 'jpylyzer'):
                R.fail('tool name %s' % y[0].findtext('toolName'))
        elif bool(a.out) != bool(b.out):
            R.fail('outputs differ')
        if names and 'nonexistent' not in names and not argv[:1] in (['--mix'], ['--format']) and b.status != 0:
            R.fail('exit status %d' % b.status)
        if argv == ['--format', 'xyz'] and (b.out or b'xyz' not in b.err):
            R.fail('unknown format accepted: %s' % b.out[:100])


# --- text and embedded XML ---------------------------------------------------------------------------

def text_cases(t):
    def cases():
        seqs = ['%c' % c for c in range(0, 0x180)] + ['\u2028', '\u200b', '\ufdd0', '\ufffd', '\ufffe', '\uffff', '\U0001f600',
                                                     '\U0010ffff', ']]>', '&amp;', '<b>', '--', '  x ', '\n', ' ', '\t\n', 'p\n\nq', 'p\n \nq', 'p\r\nq', '\n    <?xml', '\x0b\x0cz', '"\'', '/>', '<?xml version="1.0" ?>']
        for s in seqs:
            for where in range(6):
                yield s.encode('utf-8'), where
    return cases


def text_run(case, R):
    s, w = case
    pad = s.ljust(4, b'a')[:4]
    if w == 0:
        d = B.jp2(after=B.box(pad, b'x'))
    elif w == 1:
        d = B.SIG + B.ftyp(pad, 0, [pad, b'jp2 ']) + B.jp2h(B.ihdr(), B.colr()) + B.jp2c(B.codestream())
    elif w == 2:
        d = B.jp2(cs=B.codestream(main=B.COD + B.QCD + B.seg(0x64, b'\0\1' + s)))
    elif w == 3:
        d = B.jp2(after=B.box(b'uinf', B.ULST + B.box(b'url ', b'\0\0\0\0' + s + b'\0')))
    elif w == 4:
        d = B.jp2(hdr=B.ihdr() + B.colr(meth=2, rest=B.icc_d(cmm=pad, manu=pad, desc=b'x' + s + b'y')))
    else:
        d = B.jp2(after=B.box(b'xml ', b'<a>' + s + b'<b>x' + s + b'</b></a>'))
    same_three_ways(R, d, 'jp2', dict(verbose=w % 2 == 0))


def same_three_ways(R, d, fmt, opts):
    """API, compact and pretty output agree."""
    R.file('input.' + fmt, d)
    p = impl.put(d)
    for pretty in (False, True):
        r = cli.run(cli.flags(fmt=fmt, pretty=pretty, **opts) + [p])
        R.execs += 1
        R.state(d, fmt, pretty)
        document(R, r, [p], fmt, opts, pretty, '%s: ' % ('pretty' if pretty else 'compact'))
    want = spec.expect(d, fmt)
    if not want.failed() and not incomplete(want):
        R.traces += 1
        for e in schema_errors(r.out):
            R.fail('schema: ' + e)


XMLS = ['<a/>', '<a></a>', '<a>t</a>', '<a> t </a>', '<a>\n</a>', '<a><b/><b/></a>', '<a>x<b/>y</a>', '<a>x<b>z</b>y<c/>w</a>',
        '<a b="1" c="2"/>', '<a b="&lt;&quot;&amp;"/>', "<a b='\"'/>", '<a b="x&#10;y"/>', '<a b=" x "/>', '<a xmlns="urn:d"/>',
        '<a xmlns="urn:d"><b xmlns=""/></a>', '<p:a xmlns:p="urn:p" p:b="1"/>', '<p:a xmlns:p="urn:p"><q:b xmlns:q="urn:q"/></p:a>',
        '<a><![CDATA[<x>&]]></a>', '<a><!-- c --><b/></a>', '<a><?pi x?></a>', '<!DOCTYPE a [<!ENTITY e "v">]><a>&e;</a>',
        '<?xml version="1.0" encoding="UTF-8"?><a>\u00e9\u20ac\U0001f600</a>', '<a xml:lang="en" xml:space="preserve"> x <b/> </a>',
        '<a>&#x85;&#xa0;&#x2028;</a>', '<a>]]&gt;</a>', '<file><isValid>x</isValid></file>', '<jpylyzer xmlns="%s"/>' % cli.NS,
        '<a xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:type="x"/>', '<\u00e9t\u00e9/>', '<a-b.c_d/>',
        '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
        '<rdf:Description rdf:about=""/></rdf:RDF></x:xmpmeta>', '<a>%s</a>' % ('x' * 70000), '<a>' + '<b/>' * 300 + '</a>',
        '\ufeff<a/>', '<a>1 2  3\t4</a>', '<a><b> </b> <c/>\n</a>', '<a>x\n\n  \ny</a>', '<a b="x\n\ny  z">\n  <c>p\n    q\n\n</c></a>',
        '<a>&#13;x&#13;&#10;y&#9;</a>', '<a b="&#9;&#13;x"/>', '<a>\u2029x\x85y\u2028\u00a0z</a>', '<a><b>\n\n</b><c>    </c></a>', '<a><b>    x</b></a>']


def xml_cases():
    for i in range(len(XMLS)):
        for kind in range(4):
            for o in range(2):
                yield i, kind, o


def xml_run(case, R):
    i, kind, o = case
    x = XMLS[i].encode('utf-8')
    if kind >= 2:
        x += b'\0'
    b = B.box(b'xml ', x) if kind % 2 == 0 else B.box(b'uuid', B.XMP + x)
    same_three_ways(R, B.jp2(before=b), 'jp2', dict(nullxml=True) if o else dict(mix=2, verbose=True))


# --- schema -------------------------------------------------------------------------------------------

class Conforming(Space):
    """Every conforming variation of conforming files: report valid against the schema."""
    def __init__(self, files, values, name='schema of conforming files'):
        self.files, self.values = files, values
        self.name = name
        self.rule = 'every byte of %d files set to %s values, every variation that still conforms to the format' % (
            len(files), 'all' if len(values) == 256 else len(values))

    def cases(self):
        for n in self.files:
            d = self.files[n][1]
            yield n, ()
            for p in range(len(d)):
                for v in self.values:
                    if d[p] != v:
                        yield n, ((p, v),)

    def run(self, case, R):
        n, fl = case
        fmt, d = self.files[n]
        conforming(R, patch(d, fl), fmt)

    def show(self, case):
        return '%s with %s' % case


def incomplete(un):
    """A part that the tool has no test for lacks data the standard requires."""
    if un.tag in ('componentMappingBox', 'bitsPerComponentBox', 'paletteBox', 'channelDefinitionBox') and not un.items or \
            un.tag == 'poc' and un.value('rspoc') is None:
        return True
    return any((isinstance(i, tuple) and i[1] == spec.MISSING) or (isinstance(i, spec.Unit) and incomplete(i)) for i in un.items)


def conforming(R, d, fmt):
    want = spec.expect(d, fmt, True)
    if want.failed() or incomplete(want):
        return
    siz = want.kid('siz') or spec.first_path(want, 'contiguousCodestreamBox', 'siz')
    if siz is not None and siz.value('csiz') > 600:
        return
    R.file('input.' + fmt, d)
    p = impl.put(d)
    for v, pm, mix in ((False, False, 0), (True, True, 2 if fmt in ('jp2', 'jph') else 0)):
        text = impl.to_text(impl.call(p, fmt, v, pm, False, mix))
        R.execs += 1
        R.state(d, fmt, v)
        R.outcome(text)
        R.traces += 1
        for e in schema_errors((HEAD + text + '</jpylyzer>').encode('utf-8')):
            R.fail('schema: ' + e)


def features():
    """Combinations of optional parts of conforming files."""
    boxes = [b'', B.XMLBOX, B.UUIDBOX, B.UINF, B.UNKBOX, B.JP2I, B.XMPBOX]
    hdrs = [b'', B.box(b'pclr', B.pclr_d()) + B.box(b'cmap', B.cmap_d((0, 1, 0))), B.box(b'cdef', B.cdef_d((0, 0, 1))), B.res(B.RESC),
            B.res(B.RESD), B.res(B.RESC, B.RESD), B.bpcc(7)]
    segs = [b'', B.COC, B.QCC, B.RGN, B.POC, B.CRG, B.COM, B.COMB, B.TLM, B.PLM, B.PPM, B.UNK, B.PRF, B.CPF, B.CAP]
    tsegs = [b'', B.COD, B.QCD, B.COC, B.QCC, B.RGN, B.POC, B.COM, B.PLT, B.PPT, B.UNK]
    for i in range(len(boxes)):
        for j in range(len(hdrs)):
            yield 'box', boxes[i], hdrs[j]
    for i, j in itertools.product(range(len(segs)), repeat=2):
        yield 'seg', segs[i] + segs[j], b''
    for i, j in itertools.product(range(len(tsegs)), repeat=2):
        yield 'tile', tsegs[i], tsegs[j]


def feature_run(case, R):
    kind, a, b = case
    for fmt in FORMATS:
        ht = fmt in ('jph', 'jhc')
        base = (B.CAP + B.HTCOD if ht else B.COD) + B.QCD
        if kind == 'box':
            if fmt in ('jp2', 'jph'):
                conforming(R, B.jp2(fmt, hdr=B.ihdr() + B.colr() + b, before=a, after=a), fmt)
        elif kind == 'seg':
            conforming(R, B.wrap(B.codestream(ht=ht, main=base + a), fmt), fmt)
        else:
            conforming(R, B.wrap(B.codestream(ht=ht, tiles=B.tilepart(0, 0, 1, a + b)), fmt), fmt)


def spaces(tier):
    t = tier == 'thorough'
    v = corpus.valid()
    return [
        FnSpace('sets of files', 'every corpus file in every format, every pair%s, compact and pretty' % ('' if t else ' of every third'),
                sets_cases(t), sets_run),
        RealProcess(),
        c14.order_space(t),
        FnSpace('text', 'every character up to U+017F and others in every text field', text_cases(t), text_run),
        FnSpace('embedded XML', '%d documents as XML or XMP box, null-terminated or not, two option sets' % len(XMLS), xml_cases, xml_run),
        Conforming({n: v[n] for n in ([x for x in v if x != 'j2c-257'] if t else ('jp2-rich', 'jhc-rich', 'jp2-icc', 'jph-param'))},
                   tuple(range(256)) if t else (0, 1, 2, 3, 5, 8, 16, 17, 18, 32, 64, 127, 128, 255)),
        Conforming({'j2c-257': v['j2c-257']}, (0, 1, 2, 33, 64, 128, 255) if t else (0, 129), 'schema of conforming wide files'),
        FnSpace('schema of combinations', 'all conforming files that combine at most 2 features', lambda: F.vectors(
            tuple(d for d in F.ALL if d not in F.OPTIONS[1:]), 2), lambda c, R: conforming(R, *F.build(c)[:2])),
        FnSpace('features', 'command line output for every file with one feature', lambda: F.vectors(tuple(d for d in F.ALL if d not in F.OPTIONS[1:]), 1),
                lambda c, R: same_three_ways(R, *F.build(c)[:2], dict(packetmarkers=True))),
        FnSpace('schema of features', 'pairs of optional boxes, header boxes, main header and tile-part segments, 4 formats', features,
                feature_run),
    ], ['schema validity is claimed for files that conform to their format (as decided by the reference model)',
        'pretty output: text beside elements compared without surrounding white space, attribute values with white space normalised']
