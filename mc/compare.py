"""Comparison of a report with the expected report of the reference model."""
from . import spec

STRUCT = set(spec.BOXES.values()) | set(spec.SEG.values()) | {
    'siz', 'sot', 'tilePart', 'tileParts', 'icc', 'unknownBox'}


def _group(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out


def _match(want, got):
    got = spec.eol(got or '')
    if hasattr(want, 'matches'):
        return want.matches(got)
    return want == got


def xml_equal(a, b, top=True):
    """Same elements, attributes and text (a: expected, b: found)."""
    if a.tag != b.tag or a.attrib != b.attrib or len(a) != len(b):
        return False
    if spec.eol(spec.xml_text(a.text or '')) != spec.eol(b.text or ''):
        return False
    if not top and spec.eol(a.tail or '') != spec.eol(b.tail or ''):
        return False
    return all(xml_equal(x, y, False) for x, y in zip(a, b))


def properties(un, elt, path, out):
    path = path + '/' + un.tag
    leaves, kids, xml = [], [], []
    for i in un.items:
        if isinstance(i, tuple):
            leaves.append(i)
        elif isinstance(i, spec.Unit):
            if not i.hidden:
                kids.append(i)
        else:
            xml.append(i)
    if xml or un.tag == 'xmlBox':
        got = list(elt)
        if len(got) != len(xml) or not all(xml_equal(a, b) for a, b in zip(xml, got)):
            out.append('%s: embedded XML differs' % path)
        return
    gl, gk = [], []
    for e in elt:
        if e.tag in STRUCT:
            gk.append(e)
        else:
            gl.append((e.tag, e.text))
            if len(e):
                out.append('%s/%s: unexpected children' % (path, e.tag))
    w = _group((n, spec.show(n, v)) for n, v in leaves)
    g = _group(gl)
    if w.keys() != g.keys():
        out.append('%s: properties missing %s, unexpected %s' % (
            path, sorted(w.keys() - g.keys()), sorted(g.keys() - w.keys())))
    for n in w.keys() & g.keys():
        if len(w[n]) != len(g[n]):
            out.append('%s/%s: %d values expected, %d found' % (path, n, len(w[n]), len(g[n])))
            continue
        for i, (a, b) in enumerate(zip(w[n], g[n])):
            if not _match(a, b):
                out.append('%s/%s[%d]: expected %r, found %r' % (path, n, i, a, (b or '')[:120]))
                break
    wt, gt = [k.tag for k in kids], [e.tag for e in gk]
    if wt != gt:
        out.append('%s: parts expected %s, found %s' % (path, wt, gt))
        return
    for k, e in zip(kids, gk):
        properties(k, e, path, out)


def has_tests(un, verbose):
    return any(verbose or not ok for _, ok in un.tests) or any(has_tests(k, verbose) for k in un.kids())


def tests(un, elt, verbose, path, out):
    path = path + '/' + un.tag
    kids = [k for k in un.kids() if has_tests(k, verbose)]
    gl, gk = [], []
    for e in elt:
        if e.tag in STRUCT:
            gk.append(e)
        else:
            gl.append((e.tag, e.text))
    w = _group((n, str(ok)) for n, ok in un.tests if verbose or not ok)
    g = _group(gl)
    if w != g:
        for n in sorted(w.keys() | g.keys()):
            if w.get(n) != g.get(n):
                out.append('%s: test %s expected %s, found %s' % (path, n, w.get(n), g.get(n)))
    wt, gt = [k.tag for k in kids], [e.tag for e in gk]
    if wt != gt:
        out.append('%s: tested parts expected %s, found %s' % (path, wt, gt))
        return
    for k, e in zip(kids, gk):
        tests(k, e, verbose, path, out)


def has_warnings(un):
    return bool(un.warnings) or any(has_warnings(k) for k in un.kids())


def warnings(un, elt, path, out):
    path = path + '/' + un.tag
    kids = [k for k in un.kids() if has_warnings(k)]
    gl = [spec.eol(e.text or '') for e in elt if e.tag not in STRUCT]
    gk = [e for e in elt if e.tag in STRUCT]
    if len(gl) != len(un.warnings) or not all(spec.eol(w) in t for w, t in zip(un.warnings, gl)):
        out.append('%s: warnings expected on %s, found %s' % (path, un.warnings, gl))
    wt, gt = [k.tag for k in kids], [e.tag for e in gk]
    if wt != gt:
        out.append('%s: parts with warnings expected %s, found %s' % (path, wt, gt))
        return
    for k, e in zip(kids, gk):
        warnings(k, e, path, out)


def verdict(rep, want, out, fmt=None):
    """Status and verdict: analysis succeeded, valid exactly if no test fails."""
    if rep.success != 'True':
        out.append('analysis failed: %s' % rep.failure)
        return False
    ok = not want.failed()
    if rep.valid != str(ok):
        out.append('isValid expected %s, found %s' % (ok, rep.valid))
    if fmt is not None and rep.format != fmt:
        out.append('format expected %s, found %s' % (fmt, rep.format))
    for part in ('tests', 'properties', 'warnings'):
        if getattr(rep, part) is None:
            out.append('no %s in report' % part)
            return False
    return True


def full(rep, want, verbose, fmt=None):
    """All differences between report and expectation."""
    out = []
    if verdict(rep, want, out, fmt):
        tests(want, rep.tests, verbose, '', out)
        properties(want, rep.properties, '', out)
        warnings(want, rep.warnings, '', out)
    return out
