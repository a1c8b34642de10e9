"""An interrupted run is never mistaken for a complete one"""
import errno
import io
import os
import re
import resource
import shutil
import signal
import subprocess
import sys

from .. import build as B
from .. import cli, corpus, env, impl
from ..engine import Space

XMP = b'\xbe\x7a\xcf\xcb\x97\xa9\x42\xe8\x9c\x71\x99\x94\x91\xe3\xaf\xac'


def data(name):
    if name == 'xmp':
        return B.jp2(after=B.box(b'uuid', XMP + b'<a>b</a>') + B.box(b'xml ', b'<c/>'))
    if name == 'badxml':
        return B.jp2(after=B.box(b'uuid', XMP + b'<a>b</a>\0') + B.box(b'xml ', b'<c>\0') + B.box(b'xxxx', b''))
    return corpus.everything()[name][1]


# batches: files, options
RUNS = [(('jp2',), dict(pretty=True)),
        (('jp2', 'bad-empty', 'jp2-icc'), dict()),
        (('xmp', 'badxml'), dict(nullxml=True, verbose=True)),
        (('jp2-rich', 'xmp'), dict(mix=2, pretty=True)),
        (('jp2', 'bad-badc'), dict(mix=1)),
        (('jp2-rich', 'jp2'), dict(packetmarkers=True, recurse=True)),
        (tuple(sorted(corpus.everything())) + ('xmp', 'badxml'), dict(verbose=True, nullxml=True, mix=2, packetmarkers=True))]
SMALL = range(len(RUNS) - 1)
ALL = [len(RUNS) - 1]


class Setting:
    """Scratch directory with the files of a batch; judges what a disturbed run left behind."""
    _normal = {}

    def __init__(self, i):
        self.i = i
        names, opts = RUNS[i]
        self.dir = os.path.join(os.path.realpath(impl.scratch()), 'run')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.paths = []
        for k, n in enumerate(names):
            p = os.path.join(self.dir, '%d.jp2' % k)
            with open(p, 'wb') as f:
                f.write(data(n))
            os.utime(p, (1600000000, 1600000000))
            self.paths.append(p)
        self.argv = cli.flags(**opts) + ([self.dir] if opts.get('recurse') else self.paths)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def normal(self):
        key = self.i, self.dir
        if key not in self._normal:
            r = cli.run(self.argv, cwd=self.dir)
            if r.status:
                raise RuntimeError('undisturbed run fails: %s' % r.err[-300:])
            r.doc()
            self._normal[key] = r.out
        return self._normal[key]

    def judge(self, R, r, what):
        want = self.normal()
        R.execs += 1
        R.traces += 1
        R.outcome(self.i, r.status, r.out)
        if not want.startswith(r.out):
            n = next((k for k, (a, b) in enumerate(zip(want, r.out)) if a != b), len(want))
            R.fail('%s: output differs from that of an undisturbed run from byte %d on: %r' % (what, n, r.out[max(0, n - 20):n + 60]))
        if r.status == 0 and r.out != want:
            R.fail('%s: exit status 0, but the output holds %d of %d bytes' % (what, len(r.out), len(want)))
        names = sorted(os.path.basename(p) for p in self.paths)
        if sorted(os.listdir(self.dir)) != names:
            R.fail('%s: left in the directory: %s' % (what, sorted(os.listdir(self.dir))))
        for p, n in zip(self.paths, RUNS[self.i][0]):
            if os.path.exists(p) and open(p, 'rb').read() != data(n):
                R.fail('%s: input file changed' % what)


class Raw(io.RawIOBase):
    """Standard output that accepts so many bytes, or so many at a time."""

    def __init__(self, room=None, kind='ENOSPC', once=False, chunk=None, log=None):
        self.room, self.kind, self.once, self.chunk, self.done, self.log = room, kind, once, chunk, 0, log

    def writable(self):
        return True

    def fileno(self):
        return 1

    def write(self, b):
        b = bytes(b)
        if self.chunk:
            b = b[:self.chunk]
        if self.room is not None:
            b = b[:self.room - self.done]
            if not b:
                if self.once:
                    self.room = None
                if self.kind == 'EAGAIN':
                    return None
                if self.kind == 'KILL':
                    os.kill(os.getpid(), signal.SIGKILL)
                n = getattr(errno, self.kind)
                raise OSError(n, os.strerror(n))
        if self.log is not None:
            os.write(self.log, b'%d\n' % self.done)
        n = os.write(1, b)
        self.done += n
        return n


def output(raw, buffer):
    if buffer:
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw, buffer), 'utf-8')
    else:
        sys.stdout = io.TextIOWrapper(raw, 'utf-8', write_through=True)     # as with python -u


_cuts = {}


def cuts(i):
    """Positions at which the program starts to write something."""
    if i not in _cuts:
        log = os.path.join(impl.scratch(), '.cuts')
        with Setting(i) as s:
            def before(m):
                output(Raw(log=os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)), 1)
            r = cli.run(s.argv, cwd=s.dir, before=before)
            ks = {int(x) for x in open(log).read().split()} | {len(r.out)}
        _cuts[i] = sorted(k for c in ks for k in (c - 1, c, c + 1) if 0 <= k <= len(r.out)), len(r.out)
    return _cuts[i]


class Full(Space):
    """Standard output fails after k bytes."""
    KINDS = ('ENOSPC', 'EPIPE', 'EIO', 'EAGAIN', 'EBADF', 'EFBIG', 'EDQUOT', 'KILL')

    def __init__(self, runs, every):
        self.runs, self.every = runs, every
        self.name = 'output fails at every byte' if every else 'output fails around every write'
        self.rule = '%d runs: standard output takes k bytes, then fails with %s; with and without buffer' % (
            len(runs), 'ENOSPC' if every else 'each of %s, once or for good; buffers of several sizes or none' % ', '.join(self.KINDS))

    def cases(self):
        for i in self.runs:
            ks, n = cuts(i)
            if self.every:
                for k in range(n + 1):
                    yield i, k, 'ENOSPC', False, 1
                    yield i, k, 'ENOSPC', False, 0
            else:
                for k in ks:
                    for kind in self.KINDS:
                        for once in ((False, True) if kind != 'KILL' else (False,)):
                            for buffer in (0, 1, 256, 8192):
                                yield i, k, kind, once, buffer

    def run(self, case, R):
        i, k, kind, once, buffer = case
        with Setting(i) as s:
            s.normal()
            r = cli.run(s.argv, cwd=s.dir, before=lambda m: output(Raw(k, kind, once), buffer))
            R.state(case)
            s.judge(R, r, 'output fails with %s after %d bytes' % (kind, k))


class Short(Space):
    """Standard output takes few bytes at a time."""
    name = 'short writes'
    rule = 'standard output takes n bytes at a time: the same document; text layer with other encodings, error handlers and line ends: the same document'

    def __init__(self, runs):
        self.runs = runs

    def cases(self):
        for i in self.runs:
            for n in list(range(1, 40)) + [64, 100, 255, 256, 257, 511, 1023, 4095, 4096]:
                for buffer in (0, 1, 64, 8192):
                    yield i, 'chunk', n, buffer
            for enc in ('ascii', 'latin-1', 'utf-16', 'cp1252', 'utf-8-sig', 'cp037'):
                for err in ('strict', 'ignore', 'replace'):
                    yield i, 'text', enc, err
            for nl in ('\r\n', '\r', ''):
                yield i, 'newline', nl, 0

    def run(self, case, R):
        i, kind, a, b = case

        def before(m):
            if kind == 'chunk':
                output(Raw(chunk=a), b)
            elif kind == 'text':
                sys.stdout = io.TextIOWrapper(io.BufferedWriter(Raw()), a, errors=b)
            else:
                sys.stdout = io.TextIOWrapper(io.BufferedWriter(Raw()), 'utf-8', newline=a)
        with Setting(i) as s:
            s.normal()
            r = cli.run(s.argv, cwd=s.dir, before=before)
            R.state(case)
            s.judge(R, r, '%s %r' % (kind, a))
            if r.status or r.out != s.normal():
                R.fail('%s %r: exit status %d, %d bytes of %d' % (kind, a, r.status, len(r.out), len(s.normal())))




def tracer(act, seen=None):
    """Calls act(n, place) before each line of the program is executed."""
    top = os.path.join(os.path.realpath(impl.REPO), 'jpylyzer') + os.sep
    count = [0]
    mine = {}

    def local(frame, event, arg):
        if event == 'line':
            n = count[0]
            count[0] += 1
            act(n, (frame.f_code.co_filename, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in mine:
            mine[f] = os.path.realpath(f).startswith(top)
        return local if mine[f] else None
    return glob


_lines = {}


def lines(i):
    """Places passed by an undisturbed run, in order."""
    if i not in _lines:
        log = os.path.join(impl.scratch(), '.lines')
        with Setting(i) as s:
            def before(m):
                f = open(log, 'w', buffering=1 << 20)
                out = []
                sys.settrace(tracer(lambda n, place: out.append('%s:%d\n' % place)))
                real = os._exit

                def ex(code):
                    sys.settrace(None)
                    f.writelines(out)
                    f.close()
                    real(code)
                os._exit = ex
            cli.run(s.argv, cwd=s.dir, before=before)
            _lines[i] = open(log).read().splitlines()
    return _lines[i]


class Interrupt(Space):
    """The run is interrupted before a line of the program."""
    KINDS = ('KeyboardInterrupt', 'SIGINT', 'SIGTERM', 'SIGHUP')

    def __init__(self, name, runs, which, kinds):
        self.name, self.runs, self.which, self.kinds = name, runs, which, kinds
        self.rule = '%d runs of %d files: %s arrives before %s' % (len(runs), sum(len(RUNS[i][0]) for i in runs), ', '.join(kinds), {
            'every': 'each executed line', 'ends': 'the first and the last execution of each line', 'first': 'the first execution of each line'}[which])

    def cases(self):
        for i in self.runs:
            ls = lines(i)
            if self.which == 'every':
                ks = range(len(ls))
            else:
                first, last = {}, {}
                for k, x in enumerate(ls):
                    first.setdefault(x, k)
                    last[x] = k
                ks = sorted(set(first.values()) | (set(last.values()) if self.which == 'ends' else set()))
            for k in ks:
                for kind in self.kinds:
                    yield i, k, kind

    def run(self, case, R):
        i, k, kind = case

        def act(n, place):
            if n == k:
                sys.settrace(None)
                if kind == 'KeyboardInterrupt':
                    raise KeyboardInterrupt
                os.kill(os.getpid(), getattr(signal, kind))

        def before(m):
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.signal(signal.SIGHUP, signal.SIG_DFL)
            sys.settrace(tracer(act))
        with Setting(i) as s:
            s.normal()
            r = cli.run(s.argv, cwd=s.dir, before=before)
            R.state(case)
            s.judge(R, r, '%s before %s' % (kind, (lines(i) + ['?'])[min(k, len(lines(i)))]))
            R.steps += k


class Calls(Space):
    """The run is interrupted or killed while it looks at or reads a file."""
    name = 'interrupted at every call'
    rule = 'KeyboardInterrupt, SIGINT, SIGTERM or SIGKILL at each call (stat, open, map, read) on the files'

    def __init__(self, runs):
        self.runs = runs

    def cases(self):
        for i in self.runs:
            n = self.count(i)
            for k in range(n):
                for kind in ('KeyboardInterrupt', 'SIGINT', 'SIGTERM', 'SIGKILL'):
                    yield i, k, kind

    def count(self, i):
        log = os.path.join(impl.scratch(), '.stdcalls')
        with Setting(i) as s:
            def before(m):
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                env.install(s.dir, lambda k, kind, p: os.write(fd, b'x'))
            cli.run(s.argv, cwd=s.dir, before=before)
            return os.path.getsize(log)

    def run(self, case, R):
        i, k, kind = case

        def decide(n, what, p):
            if n == k:
                if kind == 'KeyboardInterrupt':
                    raise KeyboardInterrupt
                os.kill(os.getpid(), getattr(signal, kind))
        with Setting(i) as s:
            def before(m):
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                env.install(s.dir, decide)
            s.normal()
            r = cli.run(s.argv, cwd=s.dir, before=before)
            R.state(case)
            s.judge(R, r, '%s at call %d' % (kind, k))


class Real(Space):
    """Interpreter of its own, with real devices and pipes."""
    name = 'real devices'
    rule = 'program started on its own; standard output is a full device, a closed pipe, a closed or a read-only descriptor: exit status not 0; a file that may not grow beyond k bytes; with and without buffering'

    def __init__(self, runs):
        self.runs = runs

    def cases(self):
        for i in self.runs:
            for unbuffered in ('', '1'):
                for kind in ('full', 'pipe', 'closed', 'readonly', 'file'):
                    yield i, kind, unbuffered, None
                ks, n = cuts(i)
                for k in sorted(set(ks + [10, 100, n // 2, n - 20, n - 10, n - 5])):
                    yield i, 'file', unbuffered, k

    @staticmethod
    def tool(s):
        return re.search(b'<toolName>([^<]*)', s.normal()).group(1)

    def run(self, case, R):
        i, kind, unbuffered, limit = case
        e = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONUNBUFFERED=unbuffered)
        pre = None if limit is None else lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        with Setting(i) as s:
            out = os.path.join(impl.scratch(), '.realout')
            if kind == 'pipe':
                r, w = os.pipe()
                os.close(r)
            elif kind == 'readonly':
                w = os.open('/dev/null', os.O_RDONLY)
            else:
                w = os.open('/dev/full' if kind == 'full' else out, os.O_WRONLY | (0 if kind == 'full' else os.O_CREAT | os.O_TRUNC))
            argv = [cli.PYTHON, os.path.join(impl.REPO, 'cli.py')] + s.argv
            if kind == 'closed':
                argv = ['/bin/sh', '-c', 'exec "$@" >&-', 'sh'] + argv
            p = subprocess.run(argv, cwd=s.dir, env=e, stdin=subprocess.DEVNULL, stdout=w, stderr=subprocess.PIPE, timeout=120, preexec_fn=pre)
            os.close(w)
            got = b'' if kind != 'file' else open(out, 'rb').read()
            R.state(case)
            r = cli.Result(p.returncode, got, p.stderr)
            if limit is not None:
                tool = got.replace(b'<toolName>cli.py', b'<toolName>' + self.tool(s))
                if not s.normal().startswith(tool) or not p.returncode and tool != s.normal():
                    R.fail('file limited to %d bytes: status %d, %d bytes' % (limit, p.returncode, len(got)))
            elif kind != 'file':
                s.judge(R, r, 'standard output: %s' % kind)
            elif p.returncode or len(r.files()) != len(s.paths):
                R.fail('undisturbed run ends with status %d and %d bytes of output' % (p.returncode, len(got)))


def spaces(tier):
    sig = ('SIGINT', 'SIGTERM', 'SIGHUP')
    if tier == 'quick':
        sp = [Real([0, 2]),
              Full([0], True),
              Full([0, 1], False),
              Short([0, 3]),
              Interrupt('interrupted before every line of all files', ALL, 'first', ('KeyboardInterrupt',)),
              Interrupt('interrupted before every line', [1], 'ends', ('KeyboardInterrupt',)),
              Interrupt('signal before every line', [0], 'first', sig),
              Calls(SMALL)]
    else:
        sp = [Real(SMALL), Full(SMALL, True), Full(SMALL, False), Short(SMALL),
              Interrupt('interrupted before every line of all files', ALL, 'ends', ('KeyboardInterrupt',) + sig),
              Interrupt('interrupted before every step', SMALL, 'every', ('KeyboardInterrupt',)),
              Interrupt('signal before every line', SMALL, 'ends', sig), Calls(SMALL)]
    return sp, ['two interruptions in one run', 'interruptions within a line (they have the effect of one before the line or before the next)']
