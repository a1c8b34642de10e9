"""Reporting options never change the analysis"""
import itertools

from .. import build as B
from .. import cli, compare, corpus, faults, features, impl, spec
from ..common import FORMATS, FnSpace, count_units, report_size
from . import c15

PACKET = ('plm', 'ppm', 'plt', 'ppt')
COMBOS = list(itertools.product((False, True), (False, True), (False, True), (0, 1, 2)))


def tree(e, drop=(), empty=()):
    """Comparable form of an element without the elements in drop, those in empty without content."""
    if e is None:
        return None
    if e.tag in empty:
        return (e.tag,)
    return (e.tag, e.text or '', tuple(sorted(e.attrib.items())),
            tuple(tree(k, drop, empty) for k in e if k.tag not in drop))


def only_failed(e):
    """Test results that remain when output is not verbose."""
    kids = [only_failed(k) for k in e]
    return (e.tag, e.text or '', (), tuple(k for k, x in zip(kids, e) if (len(x) and k[3]) or (not len(x) and x.text == 'False')))


def relate(R, data, fmt):
    """All option combinations on one file."""
    R.file('input.' + fmt, data)
    path = impl.put(data)
    reps = {}
    for c in COMBOS:
        v, pm, nx, mix = c
        reps[c] = impl.Report(impl.call(path, fmt, v, pm, nx, mix))
        R.execs += 1
        R.state(data, fmt, c)
        R.outcome(reps[c].key())
    base, vb = reps[COMBOS[0]], reps[(True, False, False, 0)]
    head, warn, tests, vtests = base.key('statusInfo', 'isValid'), tree(base.warnings), tree(base.tests), tree(vb.tests)
    props = tree(base.properties, PACKET, ('xmlBox', 'uuidBox'))
    ext = {}
    full = {}
    for c, r in reps.items():
        v, pm, nx, mix = c
        n = '[%s verbose=%s packetmarkers=%s nullxml=%s mix=%s] ' % ((fmt,) + c)
        if r.key('statusInfo', 'isValid') != head:
            R.fail(n + 'status or verdict differs from run without options')
        if tree(r.warnings) != warn:
            R.fail(n + 'warnings differ')
        if tree(r.tests) != (vtests if v else tests):
            R.fail(n + 'tests differ')
        if tree(r.properties, PACKET, ('xmlBox', 'uuidBox')) != props:
            R.fail(n + 'properties differ')
        # each part of the properties depends only on the option that controls it
        p = tree(r.properties)
        if full.setdefault((pm, nx), p) != p:
            R.fail(n + 'properties depend on verbosity or MIX')
        if (r.extension is not None) != (mix != 0):
            R.fail(n + 'extension %s' % ('missing' if mix else 'present'))
        x = tree(r.extension)
        if ext.setdefault(mix, x) != x:
            R.fail(n + 'MIX output depends on other options')
    a, b = only_failed(vb.tests), tests
    if a != b:
        R.fail('[%s] failed tests differ between verbose and normal output' % fmt)
    if tree(reps[(False, False, False, 0)].properties, PACKET) != tree(reps[(False, True, False, 0)].properties, PACKET):
        R.fail('[%s] packet markers change other properties' % fmt)
    for pm, nx in itertools.product((False, True), repeat=2):
        want = spec.expect(data, fmt, pm, nx)
        R.traces += 1
        R.steps += count_units(want)
        for d in compare.full(reps[(True, pm, nx, 0)], want, True, fmt):
            R.fail('[%s packetmarkers=%s nullxml=%s] %s' % (fmt, pm, nx, d))


def whole(case, R):
    n, f = case
    relate(R, corpus.everything()[n][1], f)


def defect(case, R):
    d, f = faults.build(case)
    relate(R, d, f)


def feature_cases(t):
    dims = tuple(d for d in features.ALL if d not in features.OPTIONS[1:])
    some = ('before', 'mid', 'after', 'gap', 'hunk', 'plm', 'ppm', 'plt', 'ppt', 'where', 'parts', 'tcom', 'trgn', 'tcod', 'com', 'cod')

    def cases():
        for dev in features.vectors(dims, 2 if t else 1):
            if not t or dict(dev).get('comps', 1) < 4:
                yield dev
        if not t:
            for dev in features.vectors(some, 2):
                if len(dev) > 1:
                    yield dev
    return cases


def markers():
    """Packet and XML content in all positions, at once."""
    packets = (b'', B.PLM, B.PPM, B.PLM + B.PPM, B.PLM + B.PLM)
    tiles = (b'', B.PLT, B.PPT, B.PLT + B.PPT + B.PLT)
    xml = (b'', B.XMLBOX, B.box(b'xml ', B.XML + b'\0'), B.box(b'xml ', b'<a' + b'\0'), B.box(b'uuid', B.XMP + B.XML + b'\0'),
           B.box(b'uuid', B.UUID1 + B.XML + b'\0'), B.XMPBOX)
    for c in itertools.product(range(len(packets)), range(len(tiles)), range(len(xml)), ('jp2', 'jph')):
        yield c, packets[c[0]], tiles[c[1]], xml[c[2]]


def packets():
    """Packet segments of every kind with every short content, in both headers."""
    bodies = (b'', b'\0', b'\0\x05', b'\0\x85', b'\0\x85\x05', b'\0\x01\x05', b'\1\x02\x81\x01', b'\0\0', b'\0\0\0\0\x01a', b'\xff' * 4)
    for m in (0x57, 0x58, 0x60, 0x61, 0x55):
        for n in (1, 2):
            for b in itertools.product(range(len(bodies)), repeat=n):
                for where in ('main', 'tile'):
                    yield (m, b, where), b''.join(B.seg(m, bodies[i]) for i in b)


def packet_run(case, R):
    (m, b, where), segs = case
    main = B.COD + B.QCD + (segs if where == 'main' else B.COM)
    relate(R, B.codestream(main=main, tiles=B.tilepart(segs=B.COM + (segs if where == 'tile' else b''))), 'j2c')


def bytes_cases(names, vals):
    def cases():
        ev = corpus.everything()
        for n in names:
            for p in range(len(ev[n][1])):
                for v in vals:
                    if ev[n][1][p] != v:
                        yield n, p, v
    return cases


def bytes_run(case, R):
    n, p, v = case
    f, d = corpus.everything()[n]
    d = d[:p] + bytes((v,)) + d[p + 1:]
    if report_size(spec.expect(d, f, True)) > 5000:
        return
    relate(R, d, f)


def marker_run(case, R):
    c, p, t, x = case
    ht = c[3] == 'jph'
    main = (B.CAP + B.HTCOD if ht else B.COD) + B.QCD + p
    cs = B.codestream(ht=ht, main=main, tiles=B.tilepart(0, 0, 2, t) + B.tilepart(0, 1, 2, t))
    relate(R, B.jp2(c[3], before=x, cs=cs), c[3])


# --- the same through the command line ------------------------------------------------------------

CLI_FILES = ('jp2-rich', 'jph-rich', 'j2c-rich', 'jp2', 'bad-nullxml', 'bad-badc')


def cli_cases(t):
    def cases():
        for n in CLI_FILES:
            for f in FORMATS if t else (corpus.everything()[n][0], 'jhc'):
                for c in COMBOS:
                    for pretty in (False, True):
                        yield n, f, c, pretty
    return cases


def cli_run(case, R):
    n, f, (v, pm, nx, mix), pretty = case
    data = corpus.everything()[n][1]
    R.file('input.' + f, data)
    path = impl.put(data)
    argv = cli.flags(v, pm, nx, mix, pretty, f)
    # options may stand anywhere
    argv = argv[:2] + [path] + argv[2:] if (v + pm + nx) % 2 else argv + [path]
    r = cli.run(argv)
    R.execs += 1
    R.state(n, f, case[2], pretty)
    if r.status != 0:
        R.fail('%s: exit status %d %s' % (argv, r.status, r.err[-300:]))
        return
    R.outcome(r.out)
    got = r.files()
    want = cli.api_element(path, fmt=f, verbose=v, packetmarkers=pm, nullxml=nx, mix=mix if f in ('jp2', 'jph') else 0)
    if len(got) != 1 or cli.canon(got[0], pretty) != cli.canon(want, pretty):
        R.fail('%s: output differs from report of the API' % (argv,))


def spaces(tier):
    t = tier == 'thorough'
    return [
        FnSpace('corpus', 'every corpus file in every format under all 24 option combinations',
                lambda: itertools.product(corpus.everything(), FORMATS), whole),
        FnSpace('defects', 'all files with at most %s defects out of 58, all 24 option combinations' % (
            '2 (jp2: 3)' if t else '1 (jp2: 2)'),
                lambda: itertools.chain(faults.files(3 if t else 2, ('jp2',)), faults.files(2 if t else 1, FORMATS[1:])), defect),
        FnSpace('features', 'all files with one feature, and pairs of %s, all 24 option combinations' % ('all' if t else 'those that options are about'),
                feature_cases(t), lambda c, R: relate(R, *features.build(c)[:2])),
        FnSpace('markers and XML', 'packet segments of main header x tile-part header x XML content', markers, marker_run),
        FnSpace('packet segments', 'one or two packet segments of 5 kinds with 10 contents in either header', packets, packet_run),
        FnSpace('byte faults', 'every byte of rich files set to edge values, unless the report gets longer than 5000 values', bytes_cases(
            ('jp2-rich', 'bad-multi', 'jph-param', 'jp2-icc', 'jhc-rich') if t else ('jp2-rich', 'bad-multi'),
            (0, 1, 9, 127, 128, 255) if t else (0, 128, 255)), bytes_run),
        FnSpace('command line', 'command with every combination of the five options on %d files' % len(CLI_FILES),
                cli_cases(t), cli_run),
        FnSpace('pretty printing of text', 'command with and without pretty printing: every character up to U+017F and others in every text field', c15.text_cases(t), c15.text_run),
        FnSpace('pretty printing of XML', 'command with and without pretty printing: %d XML documents' % len(c15.XMLS), c15.xml_cases, c15.xml_run),
    ], ['pretty-printed text beside elements (mixed content) is compared without surrounding white space']
