"""File information in the report is faithful"""
import datetime
import math
import itertools
import os
import re
import shutil
import time
import unicodedata

from .. import build as B
from .. import cli, compare, corpus, impl, spec
from ..common import FnSpace
from ..engine import Space

DATA = B.jp2()


def xml_char(ch):
    c = ord(ch)
    return ch in '\t\n\r' or 0x20 <= c <= 0xd7ff or 0xe000 <= c <= 0xfffd or c >= 0x10000


def pattern(name):
    """What the report may say about a name: every character XML can carry, in order; others removed or replaced."""
    out = ''
    for ch in name:
        if not xml_char(ch):
            out += '[?\ufffd]?'
        elif unicodedata.category(ch) == 'Cc' and ch not in '\t\n\r':
            out += '(?:%s)?' % re.escape(ch)
        else:
            out += re.escape(ch)
    return re.compile(out, re.S)


def info_of(R, path, real=None, **kw):
    """Analyse and check the file information."""
    real = real or os.path.abspath(path)
    st = os.stat(path)
    elt = impl.call(path, **kw)
    text = impl.to_text(elt)
    text.encode('utf-8')
    rep = impl.Report(text)
    R.execs += 1
    R.traces += 1
    R.steps += 1
    check_info(R, rep, path, real, st)
    return rep


def check_info(R, rep, path, real, st):
    R.outcome(tuple(sorted(rep.info.items())))
    if set(rep.info) != {'fileName', 'filePath', 'fileSizeInBytes', 'fileLastModified'}:
        R.fail('file information has %s' % sorted(rep.info))
        return
    name = os.path.basename(path)
    if not pattern(name).fullmatch(rep.info['fileName']):
        R.fail('name %r reported as %r' % (name, rep.info['fileName']))
    if not pattern(real).fullmatch(rep.info['filePath']):
        R.fail('path %r reported as %r' % (real, rep.info['filePath']))
    if rep.info['fileSizeInBytes'] != str(st.st_size):
        R.fail('size %d reported as %s' % (st.st_size, rep.info['fileSizeInBytes']))
    check_time(R, rep.info['fileLastModified'], st.st_mtime_ns)
    if rep.success != 'True':
        R.fail('analysis failed: %s' % rep.failure)


def check_time(R, got, ns):
    try:
        d = datetime.datetime.fromisoformat(got)
    except ValueError:
        R.fail('time stamp %r is not an ISO 8601 date' % got)
        return
    if d.tzinfo is not None:
        R.fail('time stamp %r has a time zone' % got)
        return
    sec, frac = divmod(ns, 10 ** 9)
    try:
        t = time.localtime(sec)
    except (OverflowError, OSError, ValueError):
        return
    if not 1 < t.tm_year < 9999:
        return                           # cannot be represented as a date
    want = datetime.datetime(*t[:6]) + datetime.timedelta(microseconds=frac // 1000)
    # one microsecond for rounding, and what a time stamp held as a floating point number cannot express
    if abs((d - want).total_seconds()) > 1.1e-6 + math.ulp(float(abs(sec) + 1)):
        R.fail('modified %s reported as %s' % (want.isoformat(), got))


# --- names ---------------------------------------------------------------------------------------------

class Names(Space):
    def __init__(self, name, rule, gen, where=('file',)):
        self.name, self.rule, self.gen, self.where = name, rule, gen, where

    def cases(self):
        for n in self.gen():
            for w in self.where:
                yield n, w

    def run(self, case, R):
        name, where = case
        d = os.path.join(impl.scratch(), 'names')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        s = os.fsdecode(name)
        if where == 'dir':
            os.mkdir(os.path.join(d, s))
            path = os.path.join(d, s, 'f.jp2')
        else:
            path = os.path.join(d, s)
        with open(path, 'wb') as f:
            f.write(DATA)
        R.state(name, where)
        if where == 'cli':
            r = cli.run(['--nopretty', '--', os.path.basename(path)], cwd=d)
            R.execs += 1
            R.traces += 1
            R.steps += 1
            if r.status != 0 or len(r.files()) != 1:
                R.fail('exit status %d: %s' % (r.status, r.err[-200:]))
                return
            rep = impl.Report(r.files()[0])
            check_info(R, rep, path, path, os.stat(path))
        else:
            rep = info_of(R, path, path)
        if rep.valid != 'True':
            R.fail('verdict changes with the name')

    def teardown(self):
        shutil.rmtree(os.path.join(impl.scratch(), 'names'), ignore_errors=True)


def single_bytes():
    for b in range(1, 256):
        if b not in (0x0d, 0x2f):
            if b != 0x2e:
                yield bytes((b,))
            yield b'a' + bytes((b,)) + b'z.jp2'
            yield bytes((b,)) * 3


def byte_pairs(t):
    vals = [b for b in range(1, 256) if b not in (0x0d, 0x2f)] if t else \
        [1, 9, 10, 0x1f, 0x20, 0x26, 0x3c, 0x3f, 0x5c, 0x61, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xbf, 0xc2, 0xc3, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff]

    def gen():
        for a, b in itertools.product(vals, repeat=2):
            yield b'n' + bytes((a, b))
        three = [0x20, 0x61, 0x80, 0xbf, 0xed, 0xef, 0xe2, 0xf0]
        for s in itertools.product(three, repeat=3):
            yield b'n' + bytes(s)
            yield bytes(s) + b'.x'
    return gen


def characters(t):
    def gen():
        step = 1 if t else 7
        rng = itertools.chain(range(1, 0x600), range(0x600, 0x10000, step), range(0xd7f0, 0xd800), range(0xe000, 0xe010), range(0xfdd0, 0xfdf0), range(0xfe00, 0x10000),
                              range(0x10000, 0x110000, 257 if t else 4099), (0x1fffe, 0x1ffff, 0x1f600, 0xe0001, 0xf0000, 0x10fffd, 0x10fffe, 0x10ffff))
        for c in rng:
            if c in (0x0d, 0x2f) or 0xd800 <= c < 0xe000:
                continue
            yield ('x' + chr(c) + 'y').encode('utf-8')
    return gen


def special_names():
    yield from (b'a' * 255, b'.x', b'..x', b'-f', b'--verbose', b' ', b'  a  ', b'a.', b'~', b'$HOME', b'%s', b'{}', b'&amp;', b'<a>', b']]>', b'a\nb',
                b'\xc3\xa9' * 127, b'e\xcc\x81', b'C:\\x', b'\\', b'"', b"'", b'a;b', b'#', b'\xff\xfe', b'\xed\xa0\x80', b'\xed\xb0\x80', b'\xf0\x9f\x98\x80',
                b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe2\x80\xae', b'\xef\xbb\xbfx', b'\xe2\x80\x8f', b'[a]', b'a?')


# --- spellings, sizes, times -----------------------------------------------------------------------------

def spellings():
    for s in ('f.jp2', './f.jp2', 'd/f.jp2', 'd/../f.jp2', 'd//f.jp2', './/f.jp2', 'd/e/../../f.jp2', '../T/f.jp2', 'link.jp2', 'dl/f.jp2',
              '{}/f.jp2', '{}/d/../f.jp2', '{}//f.jp2', '//{}/f.jp2', '{}/d/./f.jp2', '.hid/f.jp2'):
        for c in (0, 1):
            yield s, c


def spelling_run(case, R):
    s, c = case
    d = os.path.join(impl.scratch(), 'T')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/d/e')
    os.makedirs(d + '/.hid')
    for i, p in enumerate(('f.jp2', 'd/f.jp2', '.hid/f.jp2')):
        with open(os.path.join(d, p), 'wb') as f:
            f.write(B.jp2(after=b'\0\0\0\x08abcd' * i))
    os.symlink('d/f.jp2', d + '/link.jp2')
    os.symlink('d', d + '/dl')
    s = s.replace('//{}', '/{}' if s.startswith('//{}') else '//{}').replace('{}', d)
    R.state(s, c)
    real = os.path.normpath(os.path.join(d, s))
    st = os.stat(os.path.join(d, s))
    if c:
        r = cli.run(['--nopretty', s], cwd=d)
        rep = impl.Report(r.files()[0])
    else:
        text = impl.fresh(lambda: (os.chdir(d), impl.to_text(impl.call(s)))[1])
        rep = impl.Report(text)
    R.execs += 1
    R.traces += 1
    R.steps += 1
    check_info(R, rep, s, real, st)


def sizes(t):
    def cases():
        yield from range(0, 3000 if t else 600)
        for k in range(9, 27 if t else 24):
            for dlt in (-1, 0, 1):
                yield (1 << k) + dlt
        for k in (4, 5, 6, 7):
            yield 10 ** k
    return cases


def size_run(n, R):
    p = os.path.join(impl.scratch(), 'size.jp2')
    with open(p, 'wb') as f:
        f.write(b'\0\0\0\0abcd'[:n])
        f.truncate(n)
    R.state('size', n)
    info_of(R, p)
    os.remove(p)


TIMES = [0, 1, -1, 59, 3600, 86399, 86400, 951782400, 1e9, 1e9 + .5, 1500000000.25, 1600000000, 1600000000.123456, 1600000000.999999, 1700000000.000001,
         2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 33, 2 ** 34, 4102444800, 32503680000, 253402300799, 253402300800, 2 ** 38, 2 ** 40, 2 ** 50,
         2 ** 55, -2 ** 33, -2 ** 35, -62135596800, -62135596801, -62135510400, -2 ** 40, -2 ** 55, -.5, -1.25]
ZONES = ('UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'X14')


def time_cases(t):
    def cases():
        ts = [int(x * 10 ** 9) if isinstance(x, float) else x * 10 ** 9 for x in TIMES]
        ts += [1600000000 * 10 ** 9 + n for n in (1, 999, 1000, 499999, 500000, 999999, 999999000, 999999499, 999999500, 999999999)]
        # every hour over the changes of daylight saving time, every day of two years (one a leap year), every year
        ts += [(1585440000 + 3600 * h) * 10 ** 9 for h in range(-30, 30)] + [(1603584000 + 3600 * h) * 10 ** 9 for h in range(-30, 30)]
        ts += [(1577836800 + 86400 * d + 12345) * 10 ** 9 for d in range(0, 731, 1 if t else 6)]
        ts += [(31556952 * y) * 10 ** 9 for y in range(-1900, 8000, 1 if t else 37)]
        for n in ts:
            for z in ZONES if t or abs(n) > 10 ** 18 * 1.5 else ZONES[:3]:
                yield n, z
    return cases


def time_run(case, R):
    ns, zone = case
    p = impl.put(DATA, 'time.jp2')
    try:
        os.utime(p, ns=(ns, ns))
    except (OSError, OverflowError):
        return
    R.state('time', ns, zone)
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        rep = info_of(R, p)
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()
    if rep.valid != 'True':
        R.fail('verdict changes with the time stamp')


def spaces(tier):
    t = tier == 'thorough'
    return [
        Names('name bytes', 'every byte as, in and repeated as file name', single_bytes, ('file', 'dir', 'cli')),
        Names('byte pairs', 'pairs and triples of bytes in a name', byte_pairs(t), ('file',)),
        Names('characters', 'names with %s characters' % ('all BMP' if t else 'every character below U+0600 and every seventh BMP'), characters(t)),
        Names('special names', 'long names, names that look like options, markup, odd encodings', special_names, ('file', 'dir', 'cli')),
        FnSpace('spellings', 'relative, dotted, doubled, linked and absolute spellings of paths', spellings, spelling_run),
        FnSpace('sizes', 'all sizes up to %d and around powers of two' % (3000 if t else 600), sizes(t), size_run),
        FnSpace('times', 'time stamps over the whole range, fractions, daylight saving changes, %d time zones' % len(ZONES), time_cases(t), time_run),
    ], ['carriage return in names is left open (XML readers turn it into a line feed); control characters other than tab and line feed may be removed; '
        'time stamps outside the years 1-9999 have no date and may be replaced']
