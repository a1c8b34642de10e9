"""Every invocation is carried out or refused"""
import itertools
import os

from .. import cli, corpus, impl
from ..common import FnSpace
from ..engine import Space

FLAGS = {'--nopretty': 'nopretty', '--nullxml': 'nullxml', '--recurse': 'recurse', '--packetmarkers': 'pm', '--verbose': 'verbose',
         '-r': 'recurse', '-p': 'pm'}
STOPS = {'--version': 'version', '-v': 'version', '--help': 'help', '-h': 'help'}
TAKES = {'--format': 'fmt', '-f': 'fmt', '--mix': 'mix'}
LONG = [o for d in (FLAGS, STOPS, TAKES) for o in d if o.startswith('--')]
FORMATS = ('jp2', 'jph', 'j2c', 'jhc')


class Refused(Exception):
    pass


def expand(tok):
    """Token as [(option, attached value or None)], or None if it is an argument; unknown options are ('?', ...)."""
    if not tok.startswith('-') or tok == '-':
        return None
    if tok.startswith('--'):
        name, eq, val = tok.partition('=')
        val = val if eq else None
        if name in LONG:
            return [(name, val)]
        hits = [o for o in LONG if o.startswith(name)]
        if len(hits) > 1:
            raise Refused('ambiguous')
        return [(hits[0], val)] if hits else [('?', tok)]
    out, rest = [], tok[1:]
    while rest:
        o = '-' + rest[0]
        rest = rest[1:]
        if o in TAKES:
            out.append((o, rest or None))
            break
        if o in FLAGS or o in STOPS:
            out.append((o, None))
        else:
            out.append(('?', tok) if not out else ('!', tok))
            break
    return out


def model(argv):
    """What the command is asked to do: ('run', options, arguments), ('version',) or ('help',). Raises Refused."""
    toks = [(t, expand(t)) for t in argv]
    opt = dict(fmt='jp2', mix=0, nopretty=False, nullxml=False, recurse=False, pm=False, verbose=False)
    args, extra, closed, i = [], False, False, 0
    while i < len(toks):
        t, e = toks[i]
        i += 1
        if e is None:
            if closed:
                extra = True               # arguments must stand together
            else:
                args.append(t)
                closed = i < len(toks) and toks[i][1] is not None
            continue
        for o, val in e:
            if o == '?':
                extra = True
            elif o == '!':
                if any(x in STOPS for _, z in toks[i:] if z for x, _ in z):
                    return ('open',)        # which of the two comes first is up to the parser
                extra = True
            elif o in STOPS:
                if val is not None:
                    raise Refused('value not expected')
                return (STOPS[o],)
            elif o in FLAGS:
                if val is not None:
                    raise Refused('value not expected')
                opt[FLAGS[o]] = True
            else:
                if val is None:
                    if i >= len(toks) or toks[i][1] is not None:
                        raise Refused('value missing')
                    val = toks[i][0]
                    i += 1
                if o == '--mix':
                    if val not in ('1', '2'):
                        raise Refused('MIX version')
                    val = int(val)
                opt[TAKES[o]] = val
    if extra or not args:
        raise Refused('arguments')
    opt['fmt'] = opt['fmt'].lower()
    if opt['fmt'] not in FORMATS:
        raise Refused('format')
    return 'run', opt, args


FILES = {'a.jp2': 'jp2-rich', 'b.j2c': 'jhc-rich', 'sub/c.jp2': 'bad-nullxml'}
# file names that have a meaning elsewhere; the contents of the lists name a file that exists
ODD = ('@list', '@@', '@', 'list', '+v', '+r', 'v', '+', '=', 'format=jph', 'f', 'a.jp2,b.j2c', 'a.jp2;', '$HOME', '~', '~root', '%s', '%(prog)s', '{a}', '`a`', '!a',
       '#a', 'a#b', '&', 'a b', ' a', 'a ', '"a"', "'a'", 'jp2', '1', 'file:a.jp2', '\\', 'None', 'NUL', 'CON', 'stdin', 'version', '()', '<a>', 'a|b', 'http', 'a:b')


def place():
    d = os.path.join(impl.scratch(), 'cwd')
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, 'sub'))
        for n, f in FILES.items():
            with open(os.path.join(d, n), 'wb') as h:
                h.write(corpus.everything()[f][1])
            os.utime(os.path.join(d, n), (1600000000, 1600000000))
        for n in ODD:
            with open(os.path.join(d, n), 'wb') as h:
                h.write(b'a.jp2\n' if n == 'list' else corpus.everything()['jp2'][1])
            os.utime(os.path.join(d, n), (1600000000, 1600000000))
    return d


_ref = {}


def reference(d, path, opt):
    key = path, tuple(sorted(opt.items()))
    if key not in _ref:
        mix = opt['mix'] if opt['fmt'] in ('jp2', 'jph') else 0
        here = os.getcwd()
        os.chdir(d)
        try:
            e = cli.api_element(path, fmt=opt['fmt'], verbose=opt['verbose'], packetmarkers=opt['pm'], nullxml=opt['nullxml'], mix=mix)
        finally:
            os.chdir(here)
        _ref[key] = cli.canon(e, not opt['nopretty'])
    return _ref[key]


def selected(d, opt, args):
    files, missing = [], []
    for a in args:
        p = os.path.join(d, a)
        if os.path.isfile(p):
            files.append(a)
        elif a and os.path.isdir(p):
            if opt['recurse']:
                files += [os.path.join(p, n) for n in sorted(os.listdir(p))]
        else:
            missing.append(a)
    return files, missing


def run(argv, R):
    d = place()
    r = cli.run(argv, cwd=d)
    R.execs += 1
    R.traces += 1
    R.steps += len(argv)
    R.state(argv)
    R.outcome(r.status, r.out)
    if r.status not in (0, 1, 2, 249) and r.status < 0:
        R.fail('ended by signal %d' % -r.status)
    try:
        what = model(argv)
    except Refused as ex:
        what = ('refused', str(ex))
    if what[0] == 'open':
        return
    if b'Traceback' in r.err:
        R.fail('%s: ends with an exception: %s' % (what[0], r.err[-300:]))
    if what[0] == 'refused':
        if r.status == 0:
            R.fail('refused (%s), but exit status 0' % what[1])
        if b'<jpylyzer' in r.out or b'<file' in r.out:
            R.fail('refused (%s), but output %r' % (what[1], r.out[:200]))
        if not r.err.strip():
            R.fail('refused (%s) without an explanation' % what[1])
        return
    if what[0] in ('version', 'help'):
        want = impl.jpylyzer().__version__.encode() if what[0] == 'version' else b'usage'
        if r.status != 0 or want not in r.out or b'<file' in r.out:
            R.fail('%s: exit status %d, output %r' % (what[0], r.status, r.out[:200]))
        if what[0] == 'help' and not all(o.encode() in r.out for o in LONG):
            R.fail('help does not mention all options')
        return
    _, opt, args = what
    files, missing = selected(d, opt, args)
    for m in missing:
        if m and m.encode() not in r.err:
            R.fail('no warning about %s' % m)
    if not files:
        if r.status == 0 or r.out or not r.err.strip():
            R.fail('nothing selected: exit status %d, output %r' % (r.status, r.out[:200]))
        return
    if r.status != 0:
        R.fail('exit status %d: %s' % (r.status, r.err[-300:]))
        return
    got = [cli.canon(e, not opt['nopretty']) for e in r.files()]
    if got != [reference(d, f, opt) for f in files]:
        R.fail('options %s files %s: output is not what they ask for' % (opt, files))
    lines = r.out.count(b'\n')
    if (lines > 20) == opt['nopretty']:
        R.fail('nopretty %s, but %d lines' % (opt['nopretty'], lines))


ALPHA = ['a.jp2', 'b.j2c', 'sub', 'no.jp2', '--format', '-f', 'jph', 'J2C', 'xyz', '--mix', '1', '2', '3', '--nopretty', '--nullxml', '-r', '-p',
         '--verbose', '--version', '-h', '--bogus', '-x', '-fjhc', '--format=JPH', '--mix=2', '--mix=0', '-rp', '-px', '--verb', '--ver', '--no',
         '--n', '--packet', '--verbose=1', '--format=', '']


FEW = ['a.jp2', 'sub', '-f', 'jph', 'xyz', '--mix', '2', '--mix=1', '-rp', '--verbose', '--no', '-fjhc']


def words(n, alpha=ALPHA):
    def cases():
        for k in range(n + 1):
            for w in itertools.product(alpha, repeat=k):
                yield w
    return cases


def options(t):
    """All subsets of the options before and after the file, formats in all spellings."""
    flags = ['--nopretty', '--nullxml', '-r', '-p', '--verbose']

    def cases():
        for fmt in ('jp2', 'jph', 'j2c', 'jhc', 'JP2', 'jPh', 'J2c', 'JHC', 'jpx', 'jp', 'jp2 ', ' jp2', 'jp2,jph', '0', 'jpc', 'xml', '.jp2', 'jp2.', '*.jp2', 'image/jp2', 'jp2\n', '\tjph', 'jp2h', 'jpeg2000', 'j2k', 'jpt', 'jpm', 'jp20',
                    '\uff4ap2', 'jp\u00b2', 'J\u0130P2', 'jp\u017f', 'jp*', 'None', 'jp2=', '=jp2', '"jp2"', "'jph'", 'jp2;jph', 'jp-2', 'jp_2', 'jp02'):
            for mix in (None, '1', '2', '0', '3', '-1', 'x', '1.0', ''):
                yield ('--format', fmt) + (() if mix is None else ('--mix=' + mix,)) + ('a.jp2',)
        for mask in itertools.product((0, 1), repeat=len(flags)):
            on = tuple(f for f, m in zip(flags, mask) if m)
            for fmt in ('jp2', 'jph', 'j2c', 'jhc'):
                for mix in (0, 1, 2):
                    o = on + ('-f', fmt) + (('--mix', str(mix)) if mix else ())
                    yield o + ('a.jp2', 'sub')
                    yield ('b.j2c', 'a.jp2') + o
                    if t:
                        yield tuple(reversed(on)) + ('--format=' + fmt,) + ('a.jp2',) + (('--mix', str(mix)) if mix else ())
        for a, b in itertools.product(FORMATS + ('xyz',), repeat=2):
            yield ('-f', a, 'a.jp2', '-f', b)
            yield ('--mix', '1', '-f', a, '--mix', '2', '--format', b, 'a.jp2')
    return cases


def names():
    """Names of files that exist, and of files that do not, without any special meaning."""
    for n in ODD:
        for o in ((), ('--verbose',), ('-f', 'jph')):
            yield o + (n,)
            yield o + (n, 'a.jp2')
            yield ('a.jp2', n) + o
        yield ('x' + n,)
        yield ('x' + n, 'a.jp2')
        yield (n, n)
    for n in ('@nothing', '@none/list', '+f', '+x', '+verbose', '++verbose', '/v', '/h', '/q'):
        yield (n,)
        yield (n, 'a.jp2')
        yield ('a.jp2', n)


def spaces(tier):
    t = tier == 'thorough'
    return [
        FnSpace('command lines', 'all command lines of at most %d words over %d words (options, values, files)' % (3 if t else 2, len(ALPHA)),
                words(3) if t else words(2), run, show=lambda c: ' '.join(c)),
        FnSpace('longer command lines', 'all command lines of at most %d words over %d words' % (4 if t else 3, len(FEW)), words(4 if t else 3, FEW), run,
                show=lambda c: ' '.join(c)),
        FnSpace('option sets', 'all subsets of the options with all formats and MIX versions, before and after the files', options(t), run,
                show=lambda c: ' '.join(c)),
        FnSpace('names', '%d file names that would mean something elsewhere, with and without options and other files' % len(ODD), names, run,
                show=lambda c: repr(c)),
    ], ['arguments that start with a wildcard or contain one are left to C16', 'the meaning of -- and of numbers as options is left open']
