"""A failing file never spoils the batch"""
import errno
import importlib
import io
import itertools
import os
import shutil
import sys

from .. import build as B
from .. import cli, corpus, env, impl
from ..common import FORMATS, FnSpace
from ..engine import Space

ERRNOS = ('ENOENT', 'EACCES', 'EPERM', 'EIO', 'ENOMEM', 'EMFILE', 'ENFILE', 'EISDIR', 'ELOOP', 'ESTALE', 'ENODEV', 'ENXIO', 'EAGAIN', 'EBUSY',
          'ETIMEDOUT', 'EOVERFLOW', 'ENOTDIR')
KINDS = ERRNOS + ('MemoryError',)


class Unforeseen(Exception):
    """An error of a class the program cannot know."""


CLASSES = {c.__name__: c for c in (RuntimeError, RecursionError, NotImplementedError, ValueError, EOFError, BufferError, AssertionError, ArithmeticError,
                                   ImportError, Unforeseen)}


def error(kind, path='x'):
    if kind == 'MemoryError':
        return MemoryError()
    if kind in CLASSES:
        return CLASSES[kind]('injected')
    n = getattr(errno, kind)
    return OSError(n, os.strerror(n), path)


FILES = {'good': 'jp2-rich', 'other': 'jp2', 'bad': 'bad-badc', 'hurt': 'jp2-icc', 'empty': 'bad-empty'}
OPTS = [dict(), dict(mix=2, verbose=True, pretty=True), dict(packetmarkers=True, nullxml=True)]


class Batch:
    """Scratch directory with the files of a batch."""

    def __init__(self, names):
        self.dir = os.path.join(os.path.realpath(impl.scratch()), 'batch')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.paths = []
        for i, n in enumerate(names):
            p = os.path.join(self.dir, '%d-%s.jp2' % (i, n))
            with open(p, 'wb') as f:
                f.write(corpus.everything()[FILES[n]][1])
            self.paths.append(p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_normal = {}


def normal(name, opts, fmt='jp2'):
    """Report of a file that is left alone, without file information."""
    key = name, tuple(sorted(opts.items())), fmt
    if key not in _normal:
        o = {k: v for k, v in opts.items() if k != 'pretty'}
        p = impl.put(corpus.everything()[FILES[name]][1], 'n.jp2')
        _normal[key] = rest(cli.api_element(p, fmt=fmt, **o), opts.get('pretty', False))
    return _normal[key]


def rest(e, loose):
    # the warning on an empty file names the file
    for w in e.iter('warning'):
        if (w.text or '').startswith('empty file'):
            w.text = 'empty file'
    return cli.canon(cli.strip_info(e), loose)


def failure(R, e, kinds, what):
    """The report of one file says that it could not be read."""
    if e.findtext('statusInfo/success') != 'False' or e.findtext('isValid') != 'False':
        R.fail('%s: status %s, verdict %s' % (what, e.findtext('statusInfo/success'), e.findtext('isValid')))
        return
    msg = e.findtext('statusInfo/failureMessage') or ''
    want = set()
    for k in kinds:
        if k == 'MemoryError':
            want.add('memory')
        elif k == 'ENOMEM':
            want |= {'memory', 'I/O'}
        elif k in ERRNOS:
            want.add('I/O')
        elif issubclass(CLASSES.get(k, Exception), RuntimeError):
            want.add('runtime')
        else:
            want.add('unknown')
    if not any(w in msg for w in want):
        R.fail('%s: failure message %r for %s' % (what, msg, sorted(kinds)))
    if not any(msg and msg == (w.text or '') for w in e.iter('warning')):
        R.fail('%s: no warning with the failure message' % what)
    if len(e.find('tests')) or len(e.find('properties')):
        R.fail('%s: tests or properties of a file that could not be read' % what)


def others(R, docs, names, opts, skip=(), fmt='jp2'):
    for i, (n, e) in enumerate(zip(names, docs)):
        if i not in skip and rest(e, opts.get('pretty', False)) != normal(n, opts, fmt):
            R.fail('report of file %d (%s) is not what it is alone' % (i, n))


def run_batch(R, b, opts, decide, fmt='jp2', data=True, nomap=False, recurse=False):
    logfile = os.path.join(impl.scratch(), '.stdlog')

    def before(m):
        if nomap:
            sys.modules['mmap'] = None
            importlib.reload(m)
        e = env.install(b.dir, decide, data=data)
        orig = e.event
        fd = os.open(logfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        ask = e.decide

        def logged(k, kind, p):
            try:
                ask(k, kind, p)
            except BaseException as ex:
                os.write(fd, ('%s\t%s\t%s\n' % (kind, os.path.basename(p), getattr(ex, '_kind', type(ex).__name__))).encode())
                raise
            os.write(fd, ('%s\t%s\t\n' % (kind, os.path.basename(p))).encode())
        e.decide = logged
    argv = cli.flags(fmt=fmt, recurse=recurse, **opts) + ([b.dir] if recurse else b.paths)
    r = cli.run(argv, before=before)
    R.execs += 1
    log = [tuple(x.split('\t')) for x in open(logfile, encoding='utf-8').read().splitlines()]
    R.steps += len(log)
    return r, log


_calls = {}


def calls(names, nomap=False):
    """Calls of an undisturbed run: list of (kind, file name)."""
    key = tuple(names), nomap
    if key not in _calls:
        from ..engine import Recorder
        b = Batch(names)
        try:
            r, log = run_batch(Recorder(), b, {}, lambda k, kind, p: None, nomap=nomap)
            _calls[key] = [(kind, name) for kind, name, _ in log]
        finally:
            b.close()
    return _calls[key]


def judge(R, b, names, opts, r, log, fmt='jp2'):
    """Judge a disturbed run by what happened to the calls made for each file."""
    if not r.out and log and all(kind == 'stat' for kind, _, _ in log) and \
            {x for _, x, err in log if err} == {os.path.basename(p) for p in b.paths}:
        return                                  # none of the files was found
    doc = r.doc()
    R.outcome(r.out)
    got = r.files()
    # The files that are reported are those that the selection kept.
    byname = {}
    for e in got:
        byname.setdefault(e.findtext('fileInfo/fileName'), []).append(e)
    order = [e.findtext('fileInfo/fileName') for e in got]
    base = [os.path.basename(p) for p in b.paths]
    if order != [x for x in base if x in byname] and sorted(order) != sorted(set(order)):
        R.fail('reports %s for files %s' % (order, base))
    for n, x in zip(names, base):
        mine = [(kind, err) for kind, nm, err in log if nm == x]
        faults = [(kind, err) for kind, err in mine if err]
        opened = [err for kind, err in mine if kind == 'open']
        hard = [err for kind, err in faults if kind != 'stat']
        if x not in byname:
            if any(kind == 'open' for kind, _ in mine) or not any(kind == 'stat' and err for kind, err in mine):
                R.fail('file %s is missing from the output' % x)
            continue
        e = byname[x][0]
        if hard:
            failure(R, e, hard, x)
        elif faults:
            # looking up file information failed, the contents could be read
            if rest(e, opts.get('pretty', False)) != normal(n, opts, fmt):
                failure(R, e, [err for _, err in faults], x)
        elif rest(e, opts.get('pretty', False)) != normal(n, opts, fmt):
            R.fail('report of %s is not what it is alone' % x)
    if not [1 for e in doc if e.tag == 'toolInfo']:
        R.fail('no tool information')


class OneFault(Space):
    """Every error kind at every call of the batch."""

    def __init__(self, name, batches, kinds, opts, nomap=False):
        self.name, self.batches, self.kinds, self.opts, self.nomap = name, batches, kinds, opts, nomap
        self.rule = '%d batches: each call (stat, open, map, read) on each file fails with each of %d errors; once, or from then on' % (
            len(batches), len(kinds))

    def cases(self):
        for bi, names in enumerate(self.batches):
            cs = calls(names, self.nomap)
            for k, (kind, _) in enumerate(cs):
                for er in self.kinds:
                    if kind == 'stat' and er not in ERRNOS:
                        continue                # a look-up takes no memory to speak of
                    for o in range(len(self.opts)):
                        for last in (False, True):
                            yield bi, k, kind, er, o, last

    def run(self, case, R):
        bi, k, kind, er, o, last = case
        names = self.batches[bi]
        b = Batch(names)
        hit = {}

        def decide(n, what, p):
            if n == k:
                hit['p'] = p
            if n == k or (last and n > k and p == hit.get('p') and not (what == 'stat' and er not in ERRNOS)):
                ex = error(er, p)
                ex._kind = er
                raise ex
        try:
            r, log = run_batch(R, b, self.opts[o], decide, nomap=self.nomap)
            R.state(case)
            R.traces += 1
            judge(R, b, names, self.opts[o], r, log)
        finally:
            b.close()


class TwoFaults(OneFault):
    """Two files of the batch fail."""

    def __init__(self, batches, kinds):
        OneFault.__init__(self, 'two faults', batches, kinds, [{}])
        self.rule = 'every pair of calls of a batch fails'

    def cases(self):
        for bi, names in enumerate(self.batches):
            cs = [k for k, (kind, _) in enumerate(calls(names)) if kind != 'data']
            for k, l in itertools.combinations(cs, 2):
                for e1, e2 in itertools.product(self.kinds, repeat=2):
                    if e1 == 'MemoryError' and calls(names)[k][0] == 'stat':
                        continue
                    yield bi, k, l, e1, e2

    def run(self, case, R):
        bi, k, l, e1, e2 = case
        names = self.batches[bi]
        b = Batch(names)

        def decide(n, what, p):
            if n in (k, l):
                er = e1 if n == k else e2
                if what == 'stat' and er not in ERRNOS:
                    return
                ex = error(er, p)
                ex._kind = er
                raise ex
        try:
            r, log = run_batch(R, b, {}, decide)
            R.state(case)
            R.traces += 1
            judge(R, b, names, {}, r, log)
        finally:
            b.close()


class World(Space):
    """Other processes change the files while the batch runs."""
    name = 'changing files'
    rule = 'before each call of the batch, one of the files is removed, emptied, replaced by a directory, a dangling or looping link, or another file'
    ACTIONS = ('remove', 'directory', 'dangling', 'loop', 'replace', 'empty', 'rename-dir')

    def __init__(self, batches):
        self.batches = batches

    def cases(self):
        for bi, names in enumerate(self.batches):
            for k, (kind, _) in enumerate(calls(names)):
                if kind == 'data':
                    continue
                for j in range(len(names)):
                    for a in self.ACTIONS:
                        yield bi, k, j, a

    def run(self, case, R):
        bi, k, j, a = case
        names = self.batches[bi]
        b = Batch(names)
        target = b.paths[j]

        def act():
            # always by way of a new file, so that maps of the old contents stay as they are
            if a == 'rename-dir':
                os.rename(b.dir, b.dir + '-x')
                return
            os.unlink(target)
            if a == 'directory':
                os.mkdir(target)
            elif a == 'dangling':
                os.symlink(target + '.gone', target)
            elif a == 'loop':
                os.symlink(target, target)
            elif a in ('replace', 'empty'):
                with open(target, 'wb') as f:
                    f.write(corpus.everything()[FILES['bad' if a == 'replace' else 'empty']][1])

        def decide(n, what, p):
            if n == k:
                act()
        moved = b.dir + '-x'
        shutil.rmtree(moved, ignore_errors=True)
        try:
            r, log = run_batch(R, b, {}, decide, data=False)
        finally:
            b.close()
            shutil.rmtree(moved, ignore_errors=True)
        R.state(case)
        R.traces += 1
        R.outcome(r.out)
        # what the program found when it opened each file
        base = [os.path.basename(p) for p in b.paths]
        got = {}
        try:
            for e in r.files():
                got.setdefault(e.findtext('fileInfo/fileName'), []).append(e)
        except Exception as ex:
            if log and all(kind == 'stat' for kind, _, _ in log) and not r.out:
                return                          # nothing left to analyse
            R.fail('output is not a document: %s; %s' % (ex, r.err[-300:]))
            return
        for i, (n, x) in enumerate(zip(names, base)):
            affected = a == 'rename-dir' or i == j
            opens = [m for m, (kind, nm, _) in enumerate(log) if nm == x and kind == 'open']
            if x not in got:
                if not affected or opens:
                    R.fail('file %s is missing from the output' % x)
                continue
            e = got[x][0]
            if not affected or (opens and max(opens) < k):
                if rest(e, False) != normal(n, {}):
                    R.fail('report of %s is not what it is alone' % x)
            elif opens and min(opens) >= k or not opens:
                if a in ('replace', 'empty'):
                    if rest(e, False) != normal('bad' if a == 'replace' else 'empty', {}):
                        R.fail('report of %s is not that of its contents' % x)
                else:
                    failure(R, e, ('ENOENT',), x)
            elif e.findtext('statusInfo/success') != 'True':
                failure(R, e, ('ENOENT',), x)


class Mute(Space):
    """Messages on stderr cannot be written."""
    name = 'unusable stderr'
    rule = 'stderr absent, closed, read-only, or failing with each error at each write: same output, same exit status'
    KINDS = ('none', 'closed', 'readonly') + ('ENOSPC', 'EPIPE', 'EIO', 'EBADF')
    BATCHES = (('unknown', 'good', 'unknown'), ('empty', 'other'), ('unknown', 'gone', 'empty', 'unknown'))

    def cases(self):
        for bi in range(len(self.BATCHES)):
            for kind in self.KINDS:
                for k in range(12 if kind.startswith('E') else 1):
                    for once in (False, True):
                        for o in range(2):
                            yield bi, kind, k, once, o

    def run(self, case, R):
        bi, kind, k, once, o = case
        names = self.BATCHES[bi]
        d = os.path.join(os.path.realpath(impl.scratch()), 'mute')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        paths = []
        for i, n in enumerate(names):
            paths.append(os.path.join(d, '%d.jp2' % i))
            if n == 'gone':
                continue
            data = B.jp2(after=B.box(b'abcd', b'x')) if n == 'unknown' else corpus.everything()[FILES[n]][1]
            with open(paths[-1], 'wb') as f:
                f.write(data)
            os.utime(paths[-1], (1600000000, 1600000000))

        class Raw(io.RawIOBase):
            n = 0

            def writable(self):
                return True

            def write(self, b):
                self.n += 1
                if self.n == k + 1 or self.n > k and not once:
                    e = getattr(errno, kind)
                    raise OSError(e, os.strerror(e))
                return len(b)

        def before(m):
            if kind == 'none':
                sys.stderr = None
            elif kind == 'closed':
                sys.stderr.close()
            elif kind == 'readonly':
                sys.stderr = io.TextIOWrapper(io.BufferedReader(io.BytesIO()))
            else:
                sys.stderr = io.TextIOWrapper(Raw(), 'utf-8', write_through=True)
        try:
            argv = cli.flags(**OPTS[o]) + paths
            key = tuple(open(p, 'rb').read() if os.path.exists(p) else None for p in paths), o, tuple(paths)
            if key not in _mute:
                _mute[key] = cli.run(argv)
            want, r = _mute[key], cli.run(argv, before=before)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        R.execs += 1
        R.traces += 1
        R.steps += len(paths)
        R.state(case)
        R.outcome(r.out)
        if r.out != want.out:
            R.fail('output differs from that with an ordinary stderr (%d and %d bytes)' % (len(r.out), len(want.out)))
        if want.status != 0:
            R.fail('ordinary run: exit status %d' % want.status)


_mute = {}


class Permissions(Space):
    """Files that an ordinary user may not read."""
    name = 'permissions'
    rule = 'batches of 3 files of which any subset is unreadable, and unreadable directories, as an unprivileged user'

    def cases(self):
        for mask in itertools.product((0o644, 0o000, 0o200), repeat=3):
            for rec in (False, True):
                yield mask, 0o755, rec
        for d in (0o000, 0o444, 0o111):
            yield (0o644,) * 3, d, False

    def run(self, case, R):
        mask, dmode, rec = case
        names = ('good', 'other', 'bad')
        b = Batch(names)
        top = impl.scratch()
        os.chmod(top, 0o755)
        try:
            for p, m in zip(b.paths, mask):
                os.chmod(p, m)
            os.chmod(b.dir, dmode)
            allowed = []

            def before(m):
                try:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    os._exit(77)
            r = cli.run(cli.flags(recurse=rec) + ([b.dir] if rec else b.paths), before=before)
            R.execs += 1
            if r.status == 77:
                return                          # not possible in this sandbox
            R.state(case)
            R.traces += 1
            R.outcome(r.out)
            if dmode in (0o000, 0o444):
                if r.out and any(e.findtext('statusInfo/success') != 'False' for e in r.files()):
                    R.fail('files of an inaccessible directory reported')
                return
            docs = {e.findtext('fileInfo/fileName'): e for e in r.files()}
            if len(docs) != 3:
                R.fail('%d reports' % len(docs))
            for n, p, m in zip(names, b.paths, mask):
                e = docs[os.path.basename(p)]
                if m == 0o644:
                    if rest(e, False) != normal(n, {}):
                        R.fail('report of %s is not what it is alone' % n)
                else:
                    failure(R, e, ('EACCES',), n)
        finally:
            os.chmod(b.dir, 0o755)
            os.chmod(top, 0o700)
            b.close()


class Api(Space):
    """Failures seen by callers of the API."""
    name = 'API'
    rule = 'checkOneFile on missing paths, directories, links and names, and with each call failing, 4 formats, 3 option sets'

    def cases(self):
        for what in ('missing', 'directory', 'dangling', 'loop', 'in file', 'long', 'gone dir'):
            for f in FORMATS:
                for o in range(3):
                    yield what, None, f, o
        for k in range(0, 12):
            for er in KINDS:
                for f in FORMATS:
                    yield 'fault', (k, er), f, k % 3

    def run(self, case, R):
        what, arg, fmt, o = case
        d = os.path.join(os.path.realpath(impl.scratch()), 'api')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        p = os.path.join(d, 'f.jp2')
        opts = {k: v for k, v in OPTS[o].items() if k != 'pretty'}
        if fmt in ('j2c', 'jhc'):
            opts.pop('mix', None)
        try:
            R.state(case)
            R.execs += 1
            if what == 'fault':
                with open(p, 'wb') as f:
                    f.write(corpus.everything()['jp2-rich'][1])
                want = rest(cli.api_element(p, fmt=fmt, **opts), False)

                def job():
                    log = []

                    def decide(n, kind, q):
                        if n == arg[0] and not (kind == 'stat' and arg[1] == 'MemoryError'):
                            log.append(kind)
                            raise error(arg[1], q)
                    env.install(d, decide)
                    return cli.api_element(p, fmt=fmt, **opts), log
                e, log = impl.fresh(job)
                R.traces += 1
                if log and log[0] != 'stat':
                    failure(R, e, (arg[1],), 'call %d (%s)' % (arg[0], log[0]))
                elif rest(e, False) != want:
                    failure(R, e, (arg[1],), 'call %d' % arg[0])
                R.outcome(cli.canon(cli.strip_info(e)))
                return
            if what == 'directory':
                os.mkdir(p)
            elif what == 'dangling':
                os.symlink(p + 'x', p)
            elif what == 'loop':
                os.symlink(p, p)
            elif what == 'in file':
                open(p, 'w').close()
                p = os.path.join(p, 'y.jp2')
            elif what == 'long':
                p = os.path.join(d, 'n' * 300)
            elif what == 'gone dir':
                p = os.path.join(d, 'no', 'f.jp2')
            e = cli.api_element(p, fmt=fmt, **opts)
            R.outcome(cli.canon(cli.strip_info(e)))
            failure(R, e, ('ENOENT',), what)
        finally:
            shutil.rmtree(d, ignore_errors=True)


class NoMap(Space):
    """Without the memory mapping library the reports are the same."""
    name = 'without mapping'
    rule = 'every corpus file with the mapping library absent: same report as with it'

    def cases(self):
        for n in corpus.everything():
            for f in FORMATS:
                yield n, f

    def run(self, case, R):
        n, fmt = case
        d = os.path.join(os.path.realpath(impl.scratch()), 'nomap')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, n + '.jp2')
        try:
            with open(p, 'wb') as f:
                f.write(corpus.everything()[n][1])

            def job():
                sys.modules['mmap'] = None
                m = importlib.reload(impl.jpylyzer())
                return cli.api_element(p, fmt=fmt, verbose=True)
            a, b = cli.api_element(p, fmt=fmt, verbose=True), impl.fresh(job)
            R.execs += 2
            R.state(case)
            R.outcome(cli.canon(cli.strip_info(a)))
            if n == 'bad-empty':
                a.remove(a.find('warnings'))
                b.remove(b.find('warnings'))
            if cli.canon(a) != cli.canon(b):
                R.fail('reports differ')
        finally:
            shutil.rmtree(d, ignore_errors=True)


def spaces(tier):
    t = tier == 'thorough'
    three = [('good', 'hurt', 'other'), ('hurt', 'bad', 'good')] + ([('empty', 'hurt', 'empty'), ('other', 'other', 'hurt', 'bad')] if t else [])
    kinds = KINDS if t else ('ENOENT', 'EACCES', 'EIO', 'ENOMEM', 'EMFILE', 'EISDIR', 'MemoryError')
    return [
        OneFault('one fault', three, kinds, OPTS if t else OPTS[:2]),
        OneFault('unforeseen errors', three if t else three[:1], tuple(CLASSES) if t else ('RecursionError', 'ValueError', 'BufferError', 'Unforeseen'), OPTS[:1]),
        OneFault('one fault without mapping', three[:2 if t else 1], kinds, OPTS[:1], nomap=True),
        TwoFaults([('good', 'other')] + ([('good', 'hurt', 'other')] if t else []), ('ENOENT', 'EIO', 'MemoryError') if t else ('ENOENT', 'MemoryError')),
        Mute(),
        World(three if t else three[:1]),
        Permissions(), Api(), NoMap(),
    ], ['contents of a file changing while it is mapped (not through a new file) are not explored: the process is ended by a signal',
        'a failed look-up during the selection of files may leave the file out']
