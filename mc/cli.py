"""Runs of the command line program: in a forked copy of a warm process, or in an interpreter of its own."""
import io
import os
import subprocess
import sys
import time
import traceback
import xml.etree.ElementTree as XET

from . import impl

PYTHON = '/opt/venv/bin/python'
NS = 'http://openpreservation.org/ns/jpylyzer/v2/'


def local(root):
    """Without the namespace of the tool (which unqualified elements of a report are in)."""
    for e in root.iter():
        if isinstance(e.tag, str) and e.tag.startswith('{' + NS + '}'):
            e.tag = e.tag[len(NS) + 2:]
    return root


class Result:
    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err
        self._doc = None

    def doc(self):
        """Parsed document (raises if it is not well-formed UTF-8 XML)."""
        if self._doc is None:
            self.out.decode('utf-8')
            self._doc = local(XET.fromstring(self.out))
        return self._doc

    def files(self):
        return self.doc().findall('file')

    def warnings(self):
        return self.err.decode('utf-8', 'replace')


def run(argv, cwd=None, before=None, limit=60):
    """Program with these arguments. before: called in the child (to inject faults)."""
    m = impl.jpylyzer()
    d = impl.scratch()
    po, pe = os.path.join(d, '.stdout'), os.path.join(d, '.stderr')
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 120
        try:
            for p, fd in ((po, 1), (pe, 2)):
                f = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(f, fd)
                os.close(f)
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'w', closefd=False)), 'utf-8')
            sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, 'w', closefd=False)), 'utf-8', errors='backslashreplace',
                                          line_buffering=True)
            sys.argv = ['jpylyzer'] + list(argv)
            if cwd:
                os.chdir(cwd)
            if before:
                before(m)
            code = 0
            try:
                m.main()
            except SystemExit as ex:
                if isinstance(ex.code, int):
                    code = ex.code & 255
                elif ex.code is not None:
                    sys.stderr.write(str(ex.code) + '\n')
                    code = 1
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            code = 121
        finally:
            os._exit(code)
    end = time.monotonic() + limit
    while True:
        got, st = os.waitpid(pid, os.WNOHANG)
        if got:
            break
        if time.monotonic() > end:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise RuntimeError('program does not end (%s)' % (argv,))
        time.sleep(0.0005)
    with open(po, 'rb') as f:
        out = f.read()
    with open(pe, 'rb') as f:
        err = f.read()
    return Result(os.waitstatus_to_exitcode(st), out, err)


def process(argv, cwd=None):
    """The same in an interpreter of its own, started through cli.py of the repository."""
    env = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
    p = subprocess.run([PYTHON, os.path.join(impl.REPO, 'cli.py')] + list(argv), cwd=cwd or '/', env=env,
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return Result(p.returncode, p.stdout, p.stderr)


def canon(e, loose=False, attr=False):
    """Comparable form of an element. loose: surrounding white space of text beside elements is ignored."""
    text, tail = e.text or '', e.tail or ''
    kids = list(e)
    if loose and kids:
        text = text.strip()
    at = e.attrib
    if loose:
        at = {k: ' '.join(v.split()) for k, v in at.items()}
    return (e.tag, tuple(sorted(at.items())), text,
            tuple((canon(k, loose), (k.tail or '').strip() if loose else (k.tail or '')) for k in kids))


def strip_info(e):
    """Copy of the report without file information."""
    c = XET.Element(e.tag)
    for k in e:
        if k.tag != 'fileInfo':
            c.append(k)
    return c


def api_element(path, **kw):
    """What the API returns, as read back from its XML text."""
    return local(XET.fromstring(impl.to_text(impl.call(path, **kw))))


def flags(verbose=False, packetmarkers=False, nullxml=False, mix=0, pretty=False, fmt=None, recurse=False):
    a = []
    if fmt:
        a += ['--format', fmt]
    if verbose:
        a.append('--verbose')
    if packetmarkers:
        a.append('--packetmarkers')
    if nullxml:
        a.append('--nullxml')
    if mix:
        a += ['--mix', str(mix)]
    if not pretty:
        a.append('--nopretty')
    if recurse:
        a.append('--recurse')
    return a
