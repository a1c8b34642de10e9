"""Adapter to the code under test (jpylyzer from /repo's working tree)."""
import io
import os
import shutil
import sys
import tempfile
import xml.etree.ElementTree as XET

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_mod = None


def jpylyzer():
    """The module under test, imported from REPO."""
    global _mod
    if _mod is None:
        import jpylyzer.jpylyzer as m
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError('jpylyzer imported from %s, not from %s' % (m.__file__, REPO))
        _mod = m
    return _mod


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


_dir = None
_pid = None


def scratch():
    """Scratch directory of this process."""
    global _dir, _pid
    if _dir is None or _pid != os.getpid():
        _pid = os.getpid()
        _dir = tempfile.mkdtemp(prefix='vmc-', dir=os.environ.get('VERIF_SCRATCH') or scratch_base())
    return _dir


def cleanup():
    global _dir
    if _dir is not None and _pid == os.getpid():
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None


class Null(io.TextIOBase):
    def writable(self):
        return True

    def write(self, s):
        s.encode('utf-8', 'surrogateescape')
        return len(s)


NULL = Null()


def put(data, name='f.jp2'):
    path = os.path.join(scratch(), name)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def call(path, fmt='jp2', verbose=False, packetmarkers=False, nullxml=False, mix=0):
    """Report of the file as the caller of the API gets it (an element)."""
    m = jpylyzer()
    err = sys.stderr
    sys.stderr = NULL
    try:
        return m.checkOneFile(path, fmt, verbose, packetmarkers, nullxml, mix)
    finally:
        sys.stderr = err


def to_text(elt):
    """XML text of a report, as the command line front end writes it."""
    jpylyzer()
    from jpylyzer import etpatch
    return getattr(etpatch, 'tostring', XET.tostring)(elt, 'unicode', 'xml')


class Report:
    """Observable parts of one report."""

    def __init__(self, root):
        if isinstance(root, str):
            root = XET.fromstring(root)
        self.root = r = root
        self.success = r.findtext('statusInfo/success')
        self.failure = r.findtext('statusInfo/failureMessage')
        self.valid = r.findtext('isValid')
        self.format = r.find('isValid').get('format') if r.find('isValid') is not None else None
        self.tests = r.find('tests')
        self.properties = r.find('properties')
        self.warnings = r.find('warnings')
        self.extension = r.find('propertiesExtension')
        self.info = {e.tag: e.text or '' for e in r.find('fileInfo')} if r.find('fileInfo') is not None else {}

    def key(self, *parts):
        """Content of the report apart from the file information, hashable."""
        return tuple((e.tag, e.text, e.tail, tuple(e.attrib.items()), len(e))
                     for p in (parts or ('statusInfo', 'isValid', 'tests', 'properties', 'warnings',
                                         'propertiesExtension'))
                     for x in self.root.findall(p) for e in x.iter())


def analyse(data, fmt='jp2', verbose=False, packetmarkers=False, nullxml=False, mix=0, name='f.jp2'):
    """Report of a file with these contents."""
    return Report(call(put(data, name), fmt, verbose, packetmarkers, nullxml, mix))


def fresh(fn, limit=120):
    """Result of fn() in a forked process (so whatever state the analyses leave behind ends with it)."""
    import pickle
    import select
    global _pid
    scratch()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        _pid = os.getpid()          # goes on using the scratch directory of its parent
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as ex:
                out = ('exception', '%s: %s' % (type(ex).__name__, ex))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    with os.fdopen(r, 'rb', buffering=0) as f:
        while True:
            if not select.select([f], [], [], limit)[0]:
                os.kill(pid, 9)
                break
            b = f.read(1 << 20)
            if not b:
                break
            data += b
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('process of the analysis died or did not end')
    kind, val = pickle.loads(data)
    if kind != 'ok':
        raise RuntimeError(val)
    return val
