"""Judging of executions, shared by the checks."""
import itertools

from . import build as B
from . import compare, impl, spec
from .engine import FnSpace

FORMATS = ('jp2', 'jph', 'j2c', 'jhc')


def count_units(un):
    return 1 + sum(count_units(k) for k in un.kids())


def report_size(un):
    """Number of values in the expected report."""
    return sum(report_size(i) if isinstance(i, spec.Unit) else 1 for i in un.items)


def judge(R, data, fmt, verbose=True, packetmarkers=False, nullxml=False, mix=0, what='', part=None):
    """Execute on one input and compare with the reference model. Returns the report."""
    R.file('input.' + fmt, data)
    rep = impl.analyse(data, fmt, verbose, packetmarkers, nullxml, mix)
    want = spec.expect(data, fmt, packetmarkers, nullxml)
    R.execs += 1
    R.traces += 1
    R.steps += count_units(want)
    R.state(data, fmt, verbose, packetmarkers, nullxml, mix)
    R.outcome(rep.key())
    for d in compare.full(rep, want, verbose, fmt):
        R.fail('%s[%s verbose=%s%s] %s' % (what, fmt, verbose, ' packetmarkers' if packetmarkers else '', d))
    return rep


def both(R, data, fmt, **kw):
    judge(R, data, fmt, True, **kw)
    judge(R, data, fmt, False, **kw)


def file_space(name, rule, cases, build, **kw):
    """Space of files: build(case) -> (bytes, format) or (bytes, format, options)."""
    def run(case, R):
        r = build(case)
        opts = dict(kw)
        if len(r) > 2:
            opts.update(r[2])
        judge(R, r[0], r[1], **opts)
    return FnSpace(name, rule, cases, run)


def sequences(alphabet, depth, mindepth=0):
    """All sequences over the alphabet, shortest first."""
    for n in range(mindepth, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def deviations(domains, k, default=None):
    """All vectors that deviate from the default (first value of each domain) in at most k places."""
    n = len(domains)
    base = [d[0] for d in domains] if default is None else list(default)
    for m in range(k + 1):
        for pos in itertools.combinations(range(n), m):
            for vals in itertools.product(*[[v for v in domains[p] if v != base[p]] for p in pos]):
                v = list(base)
                for p, x in zip(pos, vals):
                    v[p] = x
                yield tuple(v)


BYTE_EDGE = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 33, 37, 38, 39, 63, 64, 127, 128, 129, 165, 166,
             191, 192, 254, 255)


def byte_faults(data, k=1, values=range(256), positions=None):
    """All ways to overwrite at most k bytes of data: yields tuples of (position, value)."""
    pos = range(len(data)) if positions is None else positions
    for m in range(k + 1):
        for ps in itertools.combinations(pos, m):
            for vs in itertools.product(values, repeat=m):
                yield tuple(zip(ps, vs))


def patch(data, faults):
    if not faults:
        return data
    b = bytearray(data)
    for p, v in faults:
        b[p] = v
    return bytes(b)


def content_cases(bases, single=range(256), pairs=(), extend=4, pair_window=None, heavy=None):
    """Variations of payloads: (base, change). Changes: every byte to every value, every length up to the
    full one and some beyond it, and pairs of bytes over edge values (within a window, if given). heavy: positions limited to
    some values, because other values of that byte mean very long lists."""
    for b, payload in enumerate(bases):
        yield b, ()
        for n in range(len(payload)):
            yield b, ('cut', n)
        for n in range(1, extend + 1):
            for v in (0, 1, 255):
                yield b, ('add', n, v)
        for p in range(len(payload)):
            for v in (heavy or {}).get(p, single):
                if v != payload[p]:
                    yield b, ('set', p, v)
        if pairs:
            for p in range(len(payload)):
                for q in range(p + 1, len(payload)):
                    if pair_window and q - p > pair_window:
                        break
                    if heavy and (p in heavy or q in heavy):
                        continue
                    for v in pairs:
                        for w in pairs:
                            yield b, ('set', p, v, q, w)


def content(payload, change):
    if not change:
        return payload
    if change[0] == 'cut':
        return payload[:change[1]]
    if change[0] == 'add':
        return payload + bytes((change[2],)) * change[1]
    b = bytearray(payload)
    for i in range(1, len(change), 2):
        b[change[i]] = change[i + 1]
    return bytes(b)


def content_space(name, rule, bases, place, formats, **kw):
    """place(payload, fmt, base index) -> file."""
    opts = {k: kw.pop(k) for k in list(kw) if k in ('verbose', 'packetmarkers', 'nullxml')}

    def cases():
        for b, ch in content_cases(bases, **kw):
            for f in formats:
                yield f, b, ch

    def build(case):
        f, b, ch = case
        return place(content(bases[b], ch), f, b), f
    return file_space(name, rule, cases, build, **opts)
