"""Reports do not depend on what was analysed before"""
import gc
import itertools
import os
import re
import subprocess
from struct import pack

from .. import build as B
from .. import cli, corpus, faults, features, impl, spec
from ..common import FnSpace
from ..engine import Space

MTIME = (1600000000, 1600000000)


def contents():
    ev = corpus.everything()
    d = {n: ev[n] for n in ('jp2', 'jp2-rich', 'jph-rich', 'j2c-rich', 'jhc', 'bad-empty', 'bad-text', 'bad-nullxml', 'jp2-icc',
                            'j2c-257', 'bad-tiles', 'jp2-bpcc')}
    d['odd'] = ev['bad-odd']
    d['odd-jph'] = ev['bad-odd-jph']
    d['odd2'] = 'jp2', corpus.odd('jp2', 1)
    d['jp2-badc'] = 'jp2', B.jp2(ih=dict(c=3))             # as long as 'jp2'
    d['gone'] = 'jp2', None
    return d


DATA = contents()

# operations: (file, format, verbose, packet markers, null-terminated XML, MIX), or (file,) with the defaults of the API
OPS = [('jp2',), ('jp2-badc', 'jp2', False, False, False, 0), ('jp2-rich', 'jp2', True, True, False, 2),
       ('jp2-rich', 'jp2', False, False, False, 0), ('jph-rich', 'jph', True, False, True, 1),
       ('j2c-rich', 'j2c', False, True, False, 0), ('jhc', 'jhc', True, False, False, 0), ('bad-empty',),
       ('bad-text', 'jp2', True, False, False, 2), ('bad-nullxml', 'jp2', False, False, True, 0), ('bad-nullxml',),
       ('jp2-icc', 'jp2', False, False, False, 1), ('j2c-257', 'j2c', True, False, False, 0), ('gone', 'jp2', False, False, False, 0),
       ('bad-tiles', 'j2c', False, False, False, 0), ('jp2-bpcc', 'jph', True, False, False, 2), ('odd',), ('odd-jph', 'jph', True, True, True, 0),
       ('odd2', 'jp2', False, False, False, 0)]
SHORT = [0, 1, 2, 3, 5, 7, 9, 12, 13, 16]


def place(op, mode):
    """Path of the operation's file, which is (re)written. mode 'same': all operations use one path."""
    name = 'same.jp2' if mode == 'same' else op[0] + '.img'
    path = os.path.join(impl.scratch(), name)
    data = DATA[op[0]][1]
    if data is None:
        if os.path.exists(path):
            os.remove(path)
        return path
    with open(path, 'wb') as f:
        f.write(data)
    os.utime(path, MTIME)
    return path


def one(op, path):
    m = impl.jpylyzer()
    import sys
    err = sys.stderr
    sys.stderr = impl.NULL
    try:
        elt = m.checkOneFile(path, *op[1:])
    finally:
        sys.stderr = err
    return elt


_alone = {}


def alone(k, mode):
    """Report of operation k, executed as the only one of a process."""
    if (k, mode) not in _alone:
        op = OPS[k]
        path = place(op, mode)
        _alone[(k, mode)] = impl.fresh(lambda: impl.to_text(one(op, path)))
    return _alone[(k, mode)]


def open_files():
    fds = [os.readlink('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + f)]
    base = impl._dir
    with open('/proc/self/maps') as f:
        maps = [x for x in f.read().splitlines() if base in x]
    return [x for x in fds if base in x] + maps


def history(hist, mode, clobber):
    """Executes the operations in this process; list of problems."""
    out = []
    for i, k in enumerate(hist):
        op = OPS[k]
        path = place(op, mode)
        before = os.stat(path) if os.path.exists(path) else None
        elt = one(op, path)
        text = impl.to_text(elt)
        if text != WANT[k]:
            out.append('operation %d %s: report differs from the one of the file alone' % (i, op))
        if clobber:
            for e in list(elt.iter()):
                e.clear()
        del elt
        if i == len(hist) - 1:
            gc.collect()
            left = open_files()
            if left:
                out.append('operation %d %s: still open or mapped: %s' % (i, op, left))
        if before is not None:
            after = os.stat(path)
            with open(path, 'rb') as f:
                if f.read() != DATA[op[0]][1] or (after.st_mtime_ns, after.st_ctime_ns, after.st_mode, after.st_size, after.st_ino) != (
                        before.st_mtime_ns, before.st_ctime_ns, before.st_mode, before.st_size, before.st_ino):
                    out.append('operation %d %s: input file changed' % (i, op))
        if len(out) > 3:
            break
    extra = set(os.listdir(impl._dir)) - {o[0] + '.img' for o in OPS} - {'same.jp2', '.stdout', '.stderr'}
    if extra:
        out.append('files left behind: %s' % sorted(extra))
    return out


WANT = {}


class Histories(Space):
    def __init__(self, name, ops, depth, modes):
        self.name, self.ops, self.depth, self.modes = name, ops, depth, modes
        self.rule = 'all sequences of at most %d analyses out of %d (file x options), %s' % (depth, len(ops), ', '.join(
            '%s path%s' % (m, ', returned reports destroyed' if c else '') for m, c in modes))

    def cases(self):
        for n in range(1, self.depth + 1):
            for h in itertools.product(self.ops, repeat=n):
                for m, c in self.modes:
                    yield h, m, c

    def run(self, case, R):
        h, mode, clobber = case
        impl.scratch()
        for k in set(h):
            WANT[k] = alone(k, mode)
        for p in impl.fresh(lambda: history(h, mode, clobber)):
            R.fail(p)
        R.execs += len(h)
        R.steps += len(h)
        R.traces += 1
        R.state(h, mode, clobber)
        R.outcome(tuple(WANT[k] for k in h))

    def show(self, case):
        return '%s, %s path, %s' % ([OPS[k] for k in case[0]], case[1], 'clobber' if case[2] else 'keep')


def de_bruijn(n, k):
    """Cyclic sequence over range(n) that contains every word of length k."""
    a, seq = [0] * (n * k), []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:k - 1]


def long_cases(t):
    def cases():
        for mode in ('own', 'same'):
            for clobber in (False, True):
                yield tuple(de_bruijn(len(OPS), 3 if t else 2)), mode, clobber
                for k in range(len(OPS)):
                    yield (k,) * (300 if t else 60), mode, clobber
    return cases


def long_run(case, R):
    h, mode, clobber = case
    Histories('', [], 1, []).run(case, R)


# --- many files one after the other ---------------------------------------------------------------------

def near():
    """File with boxes whose types are one bit away from known ones, at top level and in the header."""
    types = []
    for typ in sorted(spec.BOXES):
        for i in range(4):
            for bit in range(8):
                x = typ[:i] + bytes((typ[i] ^ 1 << bit,)) + typ[i + 1:]
                if x not in spec.BOXES and x not in types:
                    types.append(x)
        for i in range(4):
            types += [x for x in (typ[:i] + b'\0' + typ[i + 1:], typ[:i] + b' ' + typ[i + 1:], typ.upper(), typ.lower())
                      if x not in spec.BOXES and x not in types]
    boxes = b''.join(B.box(x, b'<a/>') for x in types)
    return B.jp2(hdr=B.ihdr() + boxes + B.colr(), after=boxes)


def near_codes():
    """Codestream with segments of all codes that are not known, in both headers, and fields with unusual codes."""
    known = {m[1] for m in spec.SEG}
    segs = b''.join(B.seg(m, b'\0\1') for m in range(0x30, 0x100) if m not in known and m not in (
        0x4f, 0x90, 0x92, 0x93, 0xd9) and not 0x30 <= m <= 0x3f)
    return B.codestream(main=segs + B.COD + B.QCD, tiles=B.tilepart(segs=segs))


def pool():
    """Operations: corpus files with two settings of the options, files with single defects, near misses."""
    out = {}
    for n, (f, d) in corpus.everything().items():
        out['%s quiet' % n] = d, f, (False, False, False, 0)
        out['%s full' % n] = d, f, (True, True, True, 2)
    for i, c in enumerate(faults.files(1, ('jp2', 'jph', 'j2c', 'jhc'))):
        d, f = faults.build(c)
        out['defect %d' % i] = d, f, (False, i % 2 == 0, i % 3 == 0, i % 3)
    out['near types'] = near(), 'jp2', (True, False, False, 0)
    out['near codes'] = near_codes(), 'j2c', (True, True, False, 0)
    return out


_pool = []


def pool_names():
    if not _pool:
        _pool.append(pool())
    return sorted(_pool[0])


def pool_one(n):
    d, f, o = _pool[0][n]
    path = os.path.join(impl.scratch(), n.replace(' ', '-') + '.img')
    with open(path, 'wb') as h:
        h.write(d)
    os.utime(path, MTIME)
    text = impl.to_text(one((n, f) + o, path))
    os.remove(path)
    return text


_ref = {}


def pairs_run(n, R):
    names = pool_names()
    probes = names
    for x in probes:
        if x not in _ref:
            _ref[x] = impl.fresh(lambda: pool_one(x))

    def body():
        pool_one(n)
        return [x for x in probes if pool_one(x) != _ref[x]]
    for x in impl.fresh(body):
        R.fail('report of %s after %s differs from the report of the file alone' % (x, n))
    R.execs += 1 + len(probes)
    R.steps += 1 + len(probes)
    R.traces += 1
    R.state(n)
    R.outcome(n)


_feat = {}


def feature_names():
    if not _feat:
        for dev in features.vectors(tuple(d for d in features.ALL if d != 'comps'), 1):
            d, f, o = features.build(dev)
            _feat[str(dev)] = d, f, (o['verbose'], o['packetmarkers'], o['nullxml'], len(_feat) % 3)
    return list(_feat)


def features_run(n, R):
    names = feature_names()
    i = names.index(n)

    def body():
        out = []
        for j, x in enumerate([n] + names):
            d, f, o = _feat[x]
            path = os.path.join(impl.scratch(), 'f%d.img' % (i if j == 0 else j - 1))
            with open(path, 'wb') as h:
                h.write(d)
            os.utime(path, MTIME)
            out.append(impl.to_text(one((x, f) + o, path)))
            os.remove(path)
        return out
    for j, x in enumerate(names):
        if x not in _featref:
            d, f, o = _feat[x]

            def alone_():
                path = os.path.join(impl.scratch(), 'f%d.img' % j)
                with open(path, 'wb') as h:
                    h.write(d)
                os.utime(path, MTIME)
                r = impl.to_text(one((x, f) + o, path))
                os.remove(path)
                return r
            _featref[x] = impl.fresh(alone_)
    for x, text in zip([n] + names, impl.fresh(body)):
        if text != _featref[x]:
            R.fail('report of %s in a process that began with %s differs from the report of the file alone' % (x, n))
    R.execs += 1 + len(names)
    R.steps += 1 + len(names)
    R.traces += 1
    R.state(n)
    R.outcome(n)


_featref = {}


# --- files that differ in one byte -----------------------------------------------------------------------

def long_text(fmt):
    """File whose text and table fields are all longer than a few bytes."""
    words = b'The quick brown fox jumps over the lazy dog 0123456789'
    xml = b'<doc id="identifier-number-one"><title>' + words + b'</title></doc>'
    uinf = B.box(b'uinf', B.box(b'ulst', pack('>H', 2) + bytes(range(0x20, 0x40))) +
                 B.box(b'url ', b'\0\0\0\0http://example.org/some/long/address/of/a/document\0'))
    cs = dict(main=(B.CAP if fmt == 'jph' else b'') + B.seg(0x52, B.cod_d(1, 2, 3, 0, 5, style=0x40 if fmt == 'jph' else 0, prec=bytes(range(0x71, 0x77)))) + B.QCD +
              B.seg(0x64, b'\0\1' + words) + B.seg(0x64, b'\0\1' + words[::-1]) + B.seg(0x57, b'\0\x14' + bytes(range(20))),
              tiles=B.tilepart(segs=B.seg(0x58, b'\0' + bytes(range(1, 20))) + B.seg(0x64, b'\0\1' + words)))
    hdr = (B.ihdr(nc=1), B.colr(meth=2, rest=B.icc_d(desc=words)), B.box(b'pclr', B.pclr_d((7, 7), tuple((i, 255 - i) for i in range(16)))),
           B.box(b'cmap', B.cmap_d((0, 1, 0), (0, 1, 1))), B.box(b'cdef', B.cdef_d((0, 0, 1), (1, 0, 2))), B.res(B.RESC, B.RESD))
    return B.jp2(fmt, hdr=b''.join(hdr), cs=B.codestream(ht=fmt == 'jph', **cs), mid=uinf,
                 after=B.box(b'xml ', xml) + B.box(b'uuid', B.XMP + xml.replace(b'doc', b'rec')) + B.box(b'uuid', bytes(range(16)) + words))


def twin_cases(t):
    def cases():
        for fmt in ('jp2', 'jph') if t else ('jp2',):
            for i in range(len(long_text(fmt))):
                for x in (1, 16) if t else (1,):
                    yield fmt, i, x
    return cases


def twin_run(case, R):
    fmt, i, x = case
    a = long_text(fmt)
    b = a[:i] + bytes((a[i] ^ x,)) + a[i + 1:]
    path = os.path.join(impl.scratch(), 'same.jp2')

    def report(d):
        with open(path, 'wb') as f:
            f.write(d)
        os.utime(path, MTIME)
        return impl.to_text(one(('', fmt, True, True, False, 1 + i % 2), path))
    if (fmt, i % 2) not in _twin:
        _twin[fmt, i % 2] = impl.fresh(lambda: report(a))
    want = [_twin[fmt, i % 2], impl.fresh(lambda: report(b)), _twin[fmt, i % 2]]
    got = impl.fresh(lambda: [report(d) for d in (a, b, a)])
    for n, w, g in zip(('first', 'second', 'third'), want, got):
        if w != g:
            R.fail('%s of three analyses, of files that differ in byte %d: report differs from the one of the file alone' % (n, i))
    R.execs += 4
    R.steps += 3
    R.traces += 1
    R.state(case)
    R.outcome(want[1])


_twin = {}


# --- batches of the command -------------------------------------------------------------------------

BATCH = ('jp2', 'jp2-badc', 'jp2-rich', 'jph-rich', 'bad-empty', 'bad-text', 'bad-nullxml', 'jp2-icc', 'odd', 'odd2')


def batch_cases(depth):
    def cases():
        for n in range(1, depth + 1):
            for h in itertools.product(range(len(BATCH)), repeat=n):
                yield h, 'jp2', 0
                if n < 3:
                    yield h, 'jph', 2
                    yield h, 'j2c', 1
    return cases


_single = {}


def batch_run(case, R):
    h, fmt, mode = case
    opts = cli.flags(fmt=fmt, verbose=mode == 1, packetmarkers=mode == 2, mix=mode if fmt != 'j2c' else 0)
    impl.scratch()
    paths = [place((BATCH[k],), 'own') for k in h]
    for k in set(h):
        if (k, fmt, mode) not in _single:
            r = cli.run(opts + [place((BATCH[k],), 'own')])
            _single[(k, fmt, mode)] = cli.canon(r.files()[0])
    r = cli.run(opts + paths)
    R.execs += len(h)
    R.steps += len(h)
    R.traces += 1
    R.state(case)
    R.outcome(r.out)
    got = r.files()
    if r.status != 0 or len(got) != len(h):
        R.fail('exit status %d, %d reports for %d files' % (r.status, len(got), len(h)))
        return
    for i, (k, e) in enumerate(zip(h, got)):
        if cli.canon(e) != _single[(k, fmt, mode)]:
            R.fail('report %d of the batch (%s) differs from the report of the file alone' % (i, BATCH[k]))


# --- order of the reports ------------------------------------------------------------------------------

ORDER = (('b/z.jp2', 'jp2', 5), ('a/z.jp2', 'jp2-rich', 3), ('c.jp2', 'bad-text', 9), ('a/y.J2K', 'jp2', 1), ('./c.jp2', 'bad-text', 9), ('B.jp2', 'bad-empty', 7))


def order_cases(depth):
    def cases():
        files = range(len(ORDER))
        for n in range(1, depth + 1):
            for h in itertools.product(files, repeat=n):
                for absolute in (0, 1, 2):
                    yield h, absolute
    return cases


def order_run(case, R):
    h, absolute = case
    root = os.path.join(impl.scratch(), 'order')
    for name, f, t in ORDER:
        path = os.path.join(root, name)
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as o:
                o.write(corpus.everything()[f][1])
            os.utime(path, (1500000000 + t, 1500000000 + t))
    paths = [os.path.join(root, ORDER[k][0]) if absolute == 1 or absolute == 2 and i % 2 else ORDER[k][0] for i, k in enumerate(h)]
    r = cli.run(cli.flags(fmt='jp2') + paths, cwd=root)
    R.execs += len(h)
    R.steps += len(h)
    R.traces += 1
    R.state(case)
    got = r.files()
    R.outcome(r.status, tuple(e.findtext('fileInfo/filePath') for e in got))
    if r.status != 0 or len(got) != len(h):
        R.fail('exit status %d, %d reports for %d files' % (r.status, len(got), len(h)))
        return
    for k, e in zip(h, got):
        path = os.path.normpath(os.path.join(root, ORDER[k][0]))
        if e.findtext('fileInfo/filePath') != path or e.findtext('fileInfo/fileSizeInBytes') != str(os.stat(path).st_size):
            R.fail('reports on %s' % [x.findtext('fileInfo/filePath') for x in got])
            return


def order_space(t):
    return FnSpace('order', 'all command lines with at most %d out of 6 files in several directories, relative and absolute' % (4 if t else 3),
                   order_cases(4 if t else 3), order_run, show=lambda c: '%s %d' % ([ORDER[k][0] for k in c[0]], c[1]))


# --- surroundings of the process ---------------------------------------------------------------------

ENVS = [{}] + [{'PYTHONHASHSEED': str(i)} for i in (0, 1, 2, 3, 12345)] + [
    {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'POSIX'}, {'LC_ALL': 'C.UTF-8'}, {'LANG': 'xx_XX', 'LC_ALL': ''},
    {'PYTHONIOENCODING': 'ascii'}, {'PYTHONIOENCODING': 'latin-1'}, {'PYTHONIOENCODING': 'utf-16'}, {'PYTHONUTF8': '1'}, {'PYTHONOPTIMIZE': '1'},
    {'PYTHONUNBUFFERED': '1'}, {'PYTHONINTMAXSTRDIGITS': '640'}, {'HOME': '/nonexistent', 'TMPDIR': '/nonexistent'},
    {'COLUMNS': '10'}]
ENV_FILES = ('jp2-rich', 'jph-rich', 'bad-odd', 'bad-nullxml', 'bad-text', 'jp2-icc')


def env_cases():
    for e in range(len(ENVS)):
        for f in range(len(ENV_FILES)):
            for how in ('plain', 'verbose'):
                yield e, f, how
    for f in range(len(ENV_FILES)):
        for how in ('relative', 'dot', 'stdin', 'umask', 'pipe', 'tz'):
            yield 0, f, how


def env_output(env, path, how):
    argv = [cli.PYTHON, os.path.join(impl.REPO, 'cli.py'), '--nopretty', '--packetmarkers']
    argv += ['--verbose', '--mix', '2'] if how == 'verbose' else []
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG'))}
    e.update(PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    e.update(env)
    cwd = '/'
    if how in ('relative', 'dot'):
        cwd = os.path.dirname(path)
        path = ('./' if how == 'dot' else '') + os.path.basename(path)
    if how == 'tz':
        e['TZ'] = 'Asia/Tokyo'
    kw = dict(stdin=subprocess.DEVNULL)
    if how == 'stdin':
        kw = dict(input=b'data')
    p = subprocess.run(argv + [path], env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       preexec_fn=(lambda: os.umask(0o777)) if how == 'umask' else None, **kw)
    return p.returncode, p.stdout, p.stderr


def env_run(case, R):
    e, f, how = case
    n = ENV_FILES[f]
    path = os.path.join(impl.scratch(), 'env-%s.img' % n)
    with open(path, 'wb') as h:
        h.write(corpus.everything()[n][1])
    os.utime(path, MTIME)
    if (n, how == 'verbose') not in _env:
        _env[n, how == 'verbose'] = env_output({}, path, 'verbose' if how == 'verbose' else 'plain')
    want = _env[n, how == 'verbose']
    got = env_output(ENVS[e], path, how)
    R.execs += 1
    R.steps += 1
    R.traces += 1
    R.state(case)
    R.outcome(got[1])
    if got[0] != want[0]:
        R.fail('%s %s: exit status %d: %s' % (ENVS[e], how, got[0], got[2][-300:]))
    drop = re.compile(rb'<fileLastModified>[^<]*</fileLastModified>' if how == 'tz' else rb'$^')
    if drop.sub(b'', got[1]) != drop.sub(b'', want[1]):
        R.fail('%s %s: output differs from that in the ordinary environment' % (ENVS[e], how))


_env = {}


def spaces(tier):
    t = tier == 'thorough'
    modes = [('own', False), ('same', False), ('own', True), ('same', True)]
    return [
        Histories('histories', range(len(OPS)), 3 if t else 2, modes),
        Histories('deeper histories', SHORT, 4 if t else 3, modes[:2] + modes[3:]),
        FnSpace('long histories', 'one process: sequence containing every word of length %d over all operations, and one '
                'operation repeated' % (3 if t else 2), long_cases(t), long_run, show=lambda c: '%d operations %s..., %s %s' % (
                    len(c[0]), c[0][:6], c[1], c[2])),
        FnSpace('many files', 'every file of a pool (corpus, single defects, box types and segment codes close to known ones) '
                'followed by all files of the pool in one process', pool_names, pairs_run),
        FnSpace('features', 'every file with one optional or variable part, followed by all of them in one process', feature_names, features_run),
        FnSpace('twins', 'a file with long fields of all kinds and its copies with one byte changed (every byte), same path, length and '
                'modification time: analysed one after the other', twin_cases(t), twin_run, show=lambda c: '%s byte %d xor %d' % c),
        FnSpace('surroundings', 'hash seeds, locales, encodings, working directory, time zone and other settings of the process: same output',
                env_cases, env_run, show=lambda c: '%s %s %s' % (ENVS[c[0]], ENV_FILES[c[1]], c[2])),
        FnSpace('batches', 'all command lines with at most %d files out of %d' % (4 if t else 3, len(BATCH)),
                batch_cases(4 if t else 3), batch_run, show=lambda c: '%s %s' % ([BATCH[k] for k in c[0]], c[1:])),
        order_space(t),
    ], ['single-threaded use']
