"""Reports do not depend on how and where the program is started"""
import os
import pty
import re
import resource
import shutil
import subprocess
import termios
import zipfile

from .. import build as B
from .. import cli, corpus, impl, pool
from ..common import FORMATS, deviations
from ..engine import Space

MTIME = (1600000000, 1600000000)

# Settings: name -> values; the first is the ordinary one.
DIMS = [
    ('start', ('cli.py', '-m', 'import', 'script', 'zip', 'link', 'odd-bytes', 'odd-control', 'odd-space', 'optimised', 'copy', 'noext')),
    ('flags', ('', '-O', '-OO', '-u', '-B', '-b', '-X dev', '-X utf8=0', '-X utf8=1', '-s', '-v0')),
    ('locale', ('', 'C', 'POSIX', 'C.UTF-8', 'xx_XX.UTF-8', 'C-strict')),
    ('ioencoding', ('', 'ascii', 'latin-1', 'utf-16', 'ascii:strict', 'cp037', 'utf-8:surrogateescape')),
    ('hashseed', ('', '0', '1', '2', '3', '4', '12345', '4294967295')),
    ('tz', ('UTC', '', 'Asia/Tokyo', 'America/St_Johns', 'nonsense')),
    ('cwd', ('/', 'files', 'empty', 'gone', 'repo')),
    ('args', ('absolute', 'relative', 'dot', 'dotdot', 'link')),
    ('stdin', ('null', 'closed', 'pipe')),
    ('stdout', ('pipe', 'file', 'append', 'pty')),
    ('stderr', ('pipe', 'null', 'closed', 'file')),
    ('limits', ('', 'files', 'core', 'stack', 'nice')),
    ('umask', ('', '000', '777')),
    ('variables', ('', 'none', 'home', 'columns', 'term', 'tmp', 'path', 'malloc', 'intdigits', 'nobuffer')),
]
NAMES = [n for n, _ in DIMS]
FILES = ('jp2-rich', 'jph-rich', 'bad-odd', 'bad-nullxml', 'bad-text', 'jp2-icc', 'bad-badc', 'bad-empty', 'unicode')


def unicode_file():
    text = '\u00e9\u0153\u20ac\u4e2d\U0001f600\u0130\u0131'
    return B.jp2(after=B.box(b'xml ', ('<a b="%s">%s</a>' % (text, text)).encode()) + B.box(b'uinf', B.box(b'ulst', b'\0\0') + B.box(
        b'url ', b'\0\0\0\0http://' + text.encode() + b'\0')), cs=B.codestream(main=B.COD + B.QCD + B.seg(0x64, b'\0\1' + 'caf\u00e9'.encode('latin-1'))))


def sets():
    """Sets of files: a few rich ones, and per format files of varied structure and with single defects."""
    out = {'few': {n: unicode_file() if n == 'unicode' else corpus.everything()[n][1] for n in FILES}}
    for fmt in FORMATS:
        out[fmt] = pool.files(fmt)
    return out


OPTS = [['--nopretty', '--packetmarkers', '--nullxml', '--verbose', '--mix', '2'], []]


class Scene:
    """Scratch directories with the files and the ways to start the program."""

    def __init__(self):
        self.top = os.path.join(os.path.realpath(impl.scratch()), 'scene')
        self.files = os.path.join(self.top, 'few')
        self.empty = os.path.join(self.top, 'empty')
        self.links = os.path.join(self.top, 'links')
        if os.path.isdir(self.top):
            return
        for d in (self.top, self.empty, self.links):
            os.mkdir(d)
        for name, files in sets().items():
            os.mkdir(os.path.join(self.top, name))
            for n, data in files.items():
                p = os.path.join(self.top, name, n + '.img')
                with open(p, 'wb') as f:
                    f.write(data)
                os.utime(p, MTIME)
        pk = os.path.join(impl.REPO, 'jpylyzer')
        with zipfile.ZipFile(os.path.join(self.top, 'package.zip'), 'w') as z:
            for d, dirs, names in os.walk(pk):
                for n in names:
                    if not n.endswith('.pyc'):
                        z.write(os.path.join(d, n), os.path.join('jpylyzer', os.path.relpath(os.path.join(d, n), pk)))
        for d in ('copy', 'pyc'):
            shutil.copytree(pk, os.path.join(self.top, d, 'jpylyzer'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
            shutil.copy(os.path.join(impl.REPO, 'cli.py'), os.path.join(self.top, d))
        # compiled files only, docstrings and assertions left out
        subprocess.run([cli.PYTHON, '-OO', '-c', 'import compileall, sys; sys.exit(not compileall.compile_dir(%r, quiet=1, legacy=True, optimize=2))' %
                        os.path.join(self.top, 'pyc', 'jpylyzer')], check=True, env=self.env({}))
        for d, dirs, names in os.walk(os.path.join(self.top, 'pyc')):
            for n in names:
                if n.endswith('.py'):
                    os.remove(os.path.join(d, n))
        for name, file in self.LINKS.items():
            p = os.path.join(os.fsencode(self.links), file)
            if name == 'noext':
                shutil.copy(os.path.join(impl.REPO, 'cli.py'), p)
            elif name != 'script':
                os.symlink(os.path.join(impl.REPO, 'cli.py'), p)
        with open(os.path.join(self.links, 'script'), 'w') as f:
            f.write('import sys\nfrom jpylyzer.jpylyzer import main\nif __name__ == "__main__":\n    sys.exit(main())\n')

    LINKS = {'link': b'jpylyzer', 'odd-bytes': b'x\xff\xed\xa0\x80.py', 'odd-control': b'y\x01\x1b\x7f.py', 'odd-space': b' a&<b> "\'.py', 'noext': b'jpylyzer2',
             'script': b'script'}

    @staticmethod
    def env(extra):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LC_', 'LANG'))}
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=impl.REPO)
        e.update(extra)
        return e

    def run(self, s, opts, which='few'):
        files = os.path.join(self.top, which)
        e = self.env({})
        argv = [cli.PYTHON]
        if s['flags'] and s['flags'] != '-v0':
            argv += s['flags'].split()
        st = s['start']
        if st == 'cli.py':
            argv.append(os.path.join(impl.REPO, 'cli.py'))
        elif st == '-m':
            argv += ['-m', 'jpylyzer']
        elif st == 'import':
            argv += ['-c', 'from jpylyzer import jpylyzer; jpylyzer.main()']
        elif st == 'zip':
            e['PYTHONPATH'] = os.path.join(self.top, 'package.zip')
            argv += ['-m', 'jpylyzer']
        elif st == 'optimised':
            e['PYTHONPATH'] = os.path.join(self.top, 'pyc')
            argv += ['-OO', '-m', 'jpylyzer']
        elif st == 'copy':
            e['PYTHONPATH'] = ''
            argv += [os.path.join(self.top, 'copy', 'cli.py')]
        else:
            argv.append(os.path.join(os.fsencode(self.links), self.LINKS[st]))
        if s['locale'] == 'C-strict':
            e.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        elif s['locale']:
            e['LC_ALL'] = s['locale']
        if s['ioencoding']:
            e['PYTHONIOENCODING'] = s['ioencoding']
        if s['hashseed']:
            e['PYTHONHASHSEED'] = s['hashseed']
        if s['tz']:
            e['TZ'] = s['tz']
        else:
            e.pop('TZ', None)
        cwd = {'/': '/', 'files': files, 'empty': self.empty, 'repo': impl.REPO, 'gone': self.empty}[s['cwd']]
        paths = []
        for n in sorted(os.listdir(files)):
            p = os.path.join(files, n)
            if s['args'] == 'relative':
                p = os.path.relpath(p, cwd)
            elif s['args'] == 'dot':
                p = os.path.join(cwd, '.', os.path.relpath(p, cwd))
            elif s['args'] == 'dotdot':
                p = os.path.join(self.empty, '..', which, n)
            elif s['args'] == 'link':
                p = '/proc/self/root' + p
            paths.append(p)
        v = s['variables']
        if v == 'none':
            e = {k: x for k, x in e.items() if k.startswith(('PYTHON', 'LC_', 'TZ'))}
        elif v == 'home':
            e.update(HOME='/nonexistent', USER='', XDG_CONFIG_HOME='/nonexistent')
        elif v == 'columns':
            e.update(COLUMNS='1', LINES='0')
        elif v == 'term':
            e.update(TERM='xterm-256color', FORCE_COLOR='1', CLICOLOR_FORCE='1')
        elif v == 'tmp':
            e.update(TMPDIR='/nonexistent', TEMP='/nonexistent', TMP='/nonexistent')
        elif v == 'path':
            e.update(PATH='/nonexistent')
        elif v == 'malloc':
            e.update(PYTHONMALLOC='debug', PYTHONTRACEMALLOC='1')
        elif v == 'intdigits':
            e.update(PYTHONINTMAXSTRDIGITS='640')
        elif v == 'nobuffer':
            e.update(PYTHONUNBUFFERED='1')
        out, err = os.path.join(self.top, 'out'), os.path.join(self.top, 'err')
        for p in (out, err):
            if os.path.exists(p):
                os.remove(p)
        close = []
        if s['stdin'] == 'closed':
            close.append('<&-')
        if s['stderr'] == 'closed':
            close.append('2>&-')
        if s['cwd'] == 'gone':
            gone = os.path.join(self.top, 'gone')
            os.mkdir(gone)
            argv = ['/bin/sh', '-c', 'cd %s && /bin/rmdir %s && exec "$@" %s' % (gone, gone, ' '.join(close)), 'sh'] + argv
        elif close:
            argv = ['/bin/sh', '-c', 'exec "$@" ' + ' '.join(close), 'sh'] + argv

        def pre():
            if s['umask']:
                os.umask(int(s['umask'], 8))
            if s['limits'] == 'files':
                resource.setrlimit(resource.RLIMIT_NOFILE, (12, 12))
            elif s['limits'] == 'core':
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            elif s['limits'] == 'stack':
                resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, resource.RLIM_INFINITY))
            elif s['limits'] == 'nice':
                os.nice(5)
        kw = {'stdin': subprocess.DEVNULL}
        if s['stdin'] == 'pipe':
            kw = {'input': b'anything\n'}
        m = None
        if s['stdout'] == 'pipe':
            so = subprocess.PIPE
        elif s['stdout'] == 'pty':
            m, so = pty.openpty()
            at = termios.tcgetattr(so)
            at[1] &= ~termios.OPOST
            termios.tcsetattr(so, termios.TCSANOW, at)
        else:
            so = os.open(out, os.O_WRONLY | os.O_CREAT | (os.O_APPEND if s['stdout'] == 'append' else os.O_TRUNC), 0o600)
        se = {'pipe': subprocess.PIPE, 'null': subprocess.DEVNULL, 'closed': subprocess.PIPE}.get(s['stderr'])
        if s['stderr'] == 'file':
            se = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        got = b''
        if m is not None:
            p = subprocess.Popen(argv + opts + paths, env=e, cwd=cwd, stdout=so, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, preexec_fn=pre)
            os.close(so)
            while True:
                try:
                    x = os.read(m, 65536)
                except OSError:
                    break
                if not x:
                    break
                got += x
            os.close(m)
            rc, errtext = p.wait(), b''
        else:
            p = subprocess.run(argv + opts + paths, env=e, cwd=cwd, stdout=so, stderr=se, preexec_fn=pre, timeout=120, **kw)
            got = p.stdout if s['stdout'] == 'pipe' else open(out, 'rb').read()
            rc, errtext = p.returncode, p.stderr or b''
            if s['stdout'] != 'pipe':
                os.close(so)
            if s['stderr'] == 'file':
                os.close(se)
        left = sorted(os.listdir(files)) + sorted(os.listdir(self.empty))
        return rc, got, errtext, left


def form(out, s, tz):
    """Comparable form of the output, without what may depend on the setting."""
    out = re.sub(rb'<toolName>[^<]*</toolName>', b'', out)
    if tz:
        out = re.sub(rb'<fileLastModified>[^<]*</fileLastModified>', b'', out)
    if s['args'] != 'absolute':
        # however it is spelled, the path must be absolute and lead to the file
        out = re.sub(rb'<filePath>(/[^<]*)</filePath>', lambda m: os.path.realpath(m.group(1)), out)
        out = re.sub(rb'(empty file:?)[^<]*', rb'\1', out)
    return out


_normal = {}


class Settings(Space):
    def __init__(self, name, depth, which):
        self.name, self.depth, self.which = name, depth, which
        self.rule = ('few files' if which == ('few',) else 'files of varied structure and with single defects') + ': all ways to start the program that differ from the ordinary one in at most %d of %d settings (%s)' % (
            depth, len(DIMS), '; '.join('%s: %d' % (n, len(v)) for n, v in DIMS))

    def cases(self):
        for v in deviations([d for _, d in DIMS], self.depth):
            s = dict(zip(NAMES, v))
            if s['cwd'] == 'gone' and s['args'] in ('relative', 'dot'):
                continue                        # there is no current directory
            if s['start'] == 'optimised' and s['flags'] not in ('', '-O', '-OO', '-u', '-B'):
                continue
            n = sum(a != d[0] for a, (_, d) in zip(v, DIMS))
            for w in self.which:
                for o in range(len(OPTS) if n < 2 and w == 'few' else 1):
                    yield v + (w, o)

    def show(self, case):
        return {n: v for n, v, (_, d) in zip(NAMES, case, DIMS) if v != d[0]}

    def run(self, case, R):
        s, w, o = dict(zip(NAMES, case)), case[-2], case[-1]
        sc = Scene()
        opts = OPTS[o] + (['--format', w] if w != 'few' else [])
        if (w, o) not in _normal:
            _normal[w, o] = sc.run({n: d[0] for n, d in DIMS}, opts, w)
        want = _normal[w, o]
        got = sc.run(s, opts, w)
        R.execs += 1
        R.traces += 1
        R.steps += len(want[3])
        R.state(case)
        R.outcome(got[0], got[1])
        what = self.show(case)
        if got[0] != want[0]:
            R.fail('%s: exit status %d: %s' % (what, got[0], got[2][-300:]))
        tz = s['tz'] != 'UTC'
        if form(got[1], s, tz) != form(want[1], s, tz):
            R.fail('%s: output differs: %s' % (what, got[2][-300:]))
        else:
            cli.Result(0, got[1], b'').doc()
        if got[3] != want[3]:
            R.fail('%s: files left behind: %s' % (what, got[3]))


def spaces(tier):
    deep = tier != 'quick'
    return [Settings('settings', 3 if deep else 2, ('few',)), Settings('settings, many files', 2 if deep else 1, FORMATS if deep else ('jp2', 'jhc'))], ['file names the locale cannot represent (C17)', 'warnings of the interpreter turned into errors (-W error, -bb)']
