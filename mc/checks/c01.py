"""Verdict is exactly the conjunction of the reported tests"""
from .. import corpus, faults, features, scale
from ..common import BYTE_EDGE, FORMATS, FnSpace, judge, patch


def prune(elt):
    """Verbose tests reduced to what the default report must list."""
    if len(elt) == 0:
        return (elt.tag, elt.text) if elt.text == 'False' else None
    kids = [k for k in map(prune, elt) if k is not None]
    return (elt.tag, tuple(kids)) if kids else None


def tree(elt):
    if len(elt) == 0:
        return (elt.tag, elt.text)
    return (elt.tag, tuple(map(tree, elt)))


def relation(R, data, fmt, pm=False):
    v = judge(R, data, fmt, True, packetmarkers=pm)
    d = judge(R, data, fmt, False, packetmarkers=pm)
    leaves = [e.text for e in v.tests.iter() if len(e) == 0 and e is not v.tests]
    if any(x not in ('True', 'False') for x in leaves):
        R.fail('test outcome other than True or False')
    ok = v.success == 'True' and 'False' not in leaves
    if (v.valid == 'True') != ok or (d.valid == 'True') != ok:
        R.fail('verdict %s/%s, but tests say %s' % (v.valid, d.valid, ok))
    if v.valid not in ('True', 'False') or d.success != v.success:
        R.fail('verdict or status differ between verbosities')
    want = prune(v.tests)
    got = tree(d.tests) if len(d.tests) else None
    if want != got:
        R.fail('default report lists %r, failed tests are %r' % (got, want))
    for part in ('properties', 'warnings'):
        if v.key(part) != d.key(part):
            R.fail('%s differ between verbosities' % part)


def spaces(tier):
    t = tier == 'thorough'
    files = corpus.everything()
    names = list(files)

    def c_cases():
        for n in names:
            for f in FORMATS:
                for pm in (False, True):
                    yield n, f, pm

    def c_run(case, R):
        n, f, pm = case
        relation(R, files[n][1], f, pm)

    def f_cases():
        return faults.files(3 if t else 2, FORMATS if t else ('jp2', 'jhc'))

    def f_run(case, R):
        data, fmt = faults.build(case)
        relation(R, data, fmt)
    mut = ['jp2-rich', 'jhc-rich', 'jp2-icc', 'jph-param', 'jp2-bpcc'] if t else ['jp2-rich', 'jhc-rich', 'jph-param']
    vals = BYTE_EDGE if t else (0, 1, 40, 127, 128, 255)

    def m_cases():
        for n in mut:
            for p in range(len(files[n][1])):
                for v in vals:
                    if files[n][1][p] != v:
                        yield n, p, v

    def m_run(case, R):
        n, p, v = case
        relation(R, patch(files[n][1], ((p, v),)), files[n][0])

    def k_cases():
        for n in ('jp2-rich', 'jph-rich', 'j2c-many', 'jp2-icc'):
            for cut in range(len(files[n][1])):
                yield n, cut

    def k_run(case, R):
        n, cut = case
        relation(R, files[n][1][:cut], files[n][0])
    large = [f(t) for f in (scale.boxes, scale.header, scale.tables, scale.segments, scale.lists, scale.tiles, scale.metadata)]
    lim = 1100 if t else 260

    def l_cases():
        return scale.below(lim, large)

    def l_run(case, R):
        i, c = case
        r = large[i].build(c)
        relation(R, r[0], r[1])
    return [
        FnSpace('corpus', 'every corpus file in every format, both verbosities', c_cases, c_run),
        FnSpace('defects', 'all combinations of at most %d defects out of 58, at all nesting levels' % (3 if t else 2),
                f_cases, f_run),
        FnSpace('byte faults', 'every byte of %d rich files set to %d values' % (len(mut), len(vals)), m_cases, m_run),
        FnSpace('cuts', 'every truncation of 4 files', k_cases, k_run),
        features.space('features', features.ALL, 2),
        FnSpace('large files', 'files with up to %d boxes, entries, segments and tiles, one of them at fault' % lim, l_cases, l_run),
    ] + ([features.space('feature triples', tuple(d for d in features.ALL if d not in ('comps', 'verbose', 'nullxml')), 3)] if t else []), \
        ['the two reports of an input are also compared with the reference model']
