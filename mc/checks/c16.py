"""Exactly the requested files are analysed"""
import collections
import fnmatch
import itertools
import os
import shutil

from .. import cli, impl
from ..engine import Space

# A tree is a tuple of entries (path, kind): 'f' regular file, 'd' directory, 'l' link to a regular file,
# 'b' broken link, 'p' named pipe, 'D' link to the directory 'd' of the tree, 'c' link to the root of the tree.
LINKS = {'D': 'd', 'c': ''}


class Tree:
    """Model of a directory tree and of the selection of files in it."""

    def __init__(self, entries):
        self.kind = {'': 'd'}
        for path, k in entries:
            parts = path.split('/')
            for i in range(1, len(parts)):
                self.kind.setdefault('/'.join(parts[:i]), 'd')
            self.kind[path] = k

    def real(self, p):
        """Path with all links to directories resolved."""
        out = ''
        for comp in p.split('/') if p else []:
            out = (out + '/' if out else '') + comp
            if self.kind.get(out) in LINKS:
                out = LINKS[self.kind[out]]
        return out

    def isdir(self, p):
        return self.kind.get(self.real(p)) == 'd'

    def regular(self, p):
        return self.kind.get(self.real(p)) in ('f', 'l')

    def children(self, d):
        r = self.real(d)
        pre = r + '/' if r else ''
        return [(d + '/' if d else '') + x for x in sorted(
            p[len(pre):] for p in self.kind if p and p.startswith(pre) and '/' not in p[len(pre):])]

    def below(self, d):
        """Directories strictly below d; links are not followed."""
        out = [c for c in self.children(d) if self.kind[self.real(d) + '/' + c.rsplit('/', 1)[-1] if self.real(d) else c.rsplit('/', 1)[-1]] == 'd']
        return out + [x for c in out for x in self.below(c)]

    def linked(self, d):
        """Links to directories below d."""
        return [c for s in [d] + self.below(d) for c in self.children(s) if self.isdir(c) and c not in self.below(d)]

    def matches(self, pattern):
        """Existing paths that match a pattern (component by component; '*' does not match a leading dot)."""
        level = ['']
        for comp in pattern.split('/'):
            nxt = []
            for d in level:
                if not self.isdir(d):
                    continue
                for c in self.children(d):
                    name = c.rsplit('/', 1)[-1]
                    if set(comp) & set('*?['):
                        if fnmatch.fnmatchcase(name, comp) and (comp[0] == '.' or name[0] != '.'):
                            nxt.append(c)
                    elif name == comp:
                        nxt.append(c)
            level = nxt
        return level

    def select(self, arg, recurse):
        """(multiset of selected paths, kind of problem) for one argument relative to the root of the tree."""
        self.maybe = []
        if self.regular(arg):
            return [arg], None
        if '*' in arg:
            m = self.matches(arg)
            if recurse and len(m) == 1 and self.isdir(m[0]):
                return None, 'ambiguous'
            out = [p for p in m if self.regular(p)]
            if recurse:
                d, _, pat = arg.rpartition('/')
                if '*' not in pat:
                    return None, 'ambiguous'

                def hits(sub):
                    return [c for c in self.children(sub) if self.regular(c) and fnmatch.fnmatchcase(c.rsplit('/', 1)[-1], pat) and
                            (pat[0] == '.' or c.rsplit('/', 1)[-1][0] != '.')]
                for top in self.matches(d) if d else ['']:
                    if self.isdir(top):
                        for sub in self.below(top):
                            out += hits(sub)
                        # whether linked directories count as sub-directories is left open
                        for sub in self.linked(top):
                            self.maybe += hits(sub)
            return out, None
        if self.isdir(arg):
            if not recurse:
                return [], None
            return [c for s in [arg] + self.below(arg) for c in self.children(s) if self.regular(c)], None
        if arg in self.kind:
            return [], 'special'
        return [], 'missing'


def normal(arg):
    """Argument as a path relative to the root of the tree."""
    p = os.path.normpath(arg) if arg else ''
    return '' if p == '.' else p


def make(root, entries):
    os.makedirs(root, exist_ok=True)
    for path, k in entries:
        p = os.path.join(root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if k == 'd':
            os.makedirs(p, exist_ok=True)
        elif k == 'f':
            with open(p, 'wb') as f:
                f.write(b'x')
        elif k == 'l':
            t = os.path.join(impl.scratch(), 'target')
            with open(t, 'wb') as f:
                f.write(b'y')
            os.symlink(t, p)
        elif k == 'b':
            os.symlink(os.path.join(impl.scratch(), 'no such file'), p)
        elif k in LINKS:
            os.symlink(os.path.join(root, LINKS[k]), p)
        elif k == 'p':
            os.mkfifo(p)


class Selection(Space):
    def __init__(self, name, rule, gen, rootname='tree'):
        self.name, self.rule, self.gen, self.rootname = name, rule, gen, rootname
        self._made = None

    def cases(self):
        return self.gen()

    def show(self, case):
        return 'tree %s arguments %s%s%s' % ([p + {'f': '', 'd': '/', 'l': ' (link)', 'b': ' (broken link)', 'p': ' (pipe)', 'D': ' (link to d/)', 'c': ' (link to the root)'}[k]
                                              for p, k in case[0]], list(case[1]), ' recurse' if case[2] else '',
                                             ' absolute' if case[3] else '')

    def run(self, case, R):
        entries, args, recurse, absolute = case
        root = os.path.join(impl.scratch(), self.rootname)
        if self._made != (entries, root):
            shutil.rmtree(root, ignore_errors=True)
            make(root, entries)
            self._made = (entries, root)
        tree = Tree(entries)
        groups, missing, special, maybe = [], [], False, []
        for a in args:
            sel, why = tree.select(normal(a), recurse)
            if why == 'ambiguous':
                return
            if not a:
                sel, why = [], 'missing'
            if why == 'special':
                special = True
            if why == 'missing':
                missing.append(a)
            groups.append(sel)
            maybe += tree.maybe
        given = [os.path.join(root, a) for a in args] if absolute else list(args)
        r = cli.run(['--nopretty'] + (['--recurse'] if recurse else []) + ['--'] + given, cwd=root)
        R.execs += 1
        R.traces += 1
        R.steps += len(args)
        R.state(*case)
        total = sum(len(g) for g in groups)
        err = r.warnings()
        if not total and maybe:
            return
        if not total:
            if r.status == 0 or r.out:
                R.fail('nothing is selected, but exit status %d and %d bytes of output' % (r.status, len(r.out)))
            R.outcome(r.status, r.out)
        else:
            if r.status != 0:
                R.fail('exit status %d: %s' % (r.status, err[-300:]))
                return
            got = [os.path.relpath(e.findtext('fileInfo/filePath'), root) for e in r.files()]
            R.outcome(tuple(got))
            pos = 0
            if maybe:
                want = collections.Counter(p for g in groups for p in g)
                have = collections.Counter(got)
                if want - have or have - want - collections.Counter(maybe):
                    R.fail('selected %s, expected %s and at most %s' % (got, groups, maybe))
            elif len(got) != total:
                R.fail('selected %s, expected %s' % (got, groups))
            else:
                for g in groups:
                    if collections.Counter(got[pos:pos + len(g)]) != collections.Counter(g):
                        R.fail('selected %s, expected %s' % (got, groups))
                        break
                    pos += len(g)
        for a in set(args):
            told = any(a in line and 'not exist' in line for line in err.splitlines()) if a else 'not exist' in err
            if a in missing and not told:
                R.fail('argument %r does not exist, but no warning: %s' % (a, err))
        if not missing and not special and 'not exist' in err:
            R.fail('warning about existing arguments: %s' % err)
        if not total and not err:
            R.fail('nothing selected and no warning')

    def teardown(self):
        shutil.rmtree(os.path.join(impl.scratch(), self.rootname), ignore_errors=True)


SLOTS = (('a.jp2', 'f'), ('b.txt', 'f'), ('.h.jp2', 'f'), ('d/a.jp2', 'f'), ('d/e/c.jp2', 'f'), ('d/e/g/b.txt', 'f'),
         ('d2/a.jp2', 'f'), ('z', 'd'))
MORE = (('d/.h.jp2', 'f'), ('.hid/a.jp2', 'f'), ('d.jp2', 'd'), ('d.jp2/i.jp2', 'f'), ('k[1]', 'd'), ('k[1]/s/a.jp2', 'f'), ('d/l.jp2', 'l'), ('d/b.jp2', 'b'),
        ('d/p.jp2', 'p'), ('d/d/d.jp2', 'f'), ('d/d/d/d', 'f'), ('d/e/d/a.jp2', 'f'), ('d/tree/a.jp2', 'f'), ('d/e/g/h/i/j/a.jp2', 'f'), ('with space/a b.jp2', 'f'), ('\u00e9t\u00e9/\u00e9.jp2', 'f'), ('d/e/A.JP2', 'f'),
        ('q?x/s/a.jp2', 'f'), ('qzx/s/a.jp2', 'f'), ('d/v*w/s/a.jp2', 'f'), ('d/vzw/s/a.jp2', 'f'), ('d.jp2/u/i.jp2', 'f'), ('e.txt/u/i.jp2', 'f'), ('d/[a-z]/a.jp2', 'f'),
        ('ld', 'D'), ('d/e/up', 'c'), ('z/ld', 'D'), ('.ld', 'D'))
ARGS = ('a.jp2', 'b.txt', 'd', 'd/', './d', 'd/e', 'd2', 'z', '.', '*', '*.jp2', 'd/*', 'd/*.jp2', '*/*', '*/a.jp2', '*/*.jp2', 'd*/*',
        'd/e/*', 'nothing', 'd/nothing', 'no*', 'no/*', 'a*', '*a*', './a.jp2', '.h.jp2', '.*', 'd/*/*')


def subsets(slots):
    for n in range(len(slots) + 1):
        yield from itertools.combinations(slots, n)


def single(slots, args):
    def gen():
        for t in subsets(slots):
            for a in args:
                for rec in (False, True):
                    yield t, (a,), rec, False
    return gen


PAIR_TREES = ((('a.jp2', 'f'), ('d/a.jp2', 'f'), ('d/e/c.jp2', 'f'), ('d2/a.jp2', 'f'), ('z', 'd')), SLOTS)


def pairs(args, n):
    def gen():
        for t in PAIR_TREES:
            for c in itertools.product(args, repeat=n):
                for rec in (False, True):
                    yield t, c, rec, False
    return gen


def odd():
    """Special entries: each alone with its surroundings, and all together."""
    base = (('a.jp2', 'f'), ('d/a.jp2', 'f'))
    args = ARGS + ('k[1]', 'd.jp2', 'd/l.jp2', 'd/b.jp2', 'd/p.jp2', 'with space', 'with space/*', '\u00e9t\u00e9', '*/*\u00e9*', '.hid', 'd/.h.jp2',
                   'with space/a b.jp2', 'd/e/*.JP2', '', 'ld', 'ld/', 'l*', 'ld/*', 'ld/*.jp2', 'z', 'z/*', 'd/e/up', 'd/e/up/d', '?/*', 'd?/*', '[dz]/*.jp2',
                   'd/?/*', '?.jp*', '[ab].*', 'q*/*', 'q*', '*/s/*', 'd/v*/*', '*.jp2/*', '*.txt/*.jp2', '*.*/*')
    wide = base + (('d/e/c.jp2', 'f'), ('d2/a.jp2', 'f'), ('d2/e/a.jp2', 'f'), ('z/s/b.jp2', 'f'), ('b.jp2', 'f'))
    for t in [base + (m,) for m in MORE] + [base + MORE] + [MORE] + [wide, wide + MORE]:
        for a in args:
            for rec in (False, True):
                for ab in (False, True):
                    if not (ab and (a == '' or '[' in a)):
                        yield t, (a,), rec, ab


def spaces(tier):
    t = tier == 'thorough'
    odd_names = ('k[1]/s', 'a?b', 'x y', '\u00e9', 's*r') if t else ('k[1]', 's*r')
    return [
        Selection('trees', 'all subsets of %d entries x %d arguments x recurse' % (len(SLOTS) if t else 6, len(ARGS)),
                  single(SLOTS if t else SLOTS[:2] + SLOTS[3:7], ARGS)),
        Selection('special entries', 'hidden, linked, odd names, pipes; relative and absolute arguments', odd),
        Selection('argument pairs', 'all pairs of arguments on two trees', pairs(ARGS if t else ARGS[::2] + ('nothing', '*.jp2'), 2)),
        Selection('argument triples', 'all triples of arguments on two trees',
                  pairs(('a.jp2', 'd', 'nothing', '*.jp2', 'd/*') + (('d/e', '*', 'no*', 'z') if t else ()), 3)),
    ] + [Selection('directory named %s' % n, 'current directory with an unusual name, all arguments',
                   lambda: ((SLOTS, (a,), rec, False) for a in ARGS for rec in (False, True)), n) for n in odd_names], [
        'excluded as ambiguous: recursion with a pattern that matches nothing but one directory, or whose last component has no wildcard; '
        'the order of files selected by one pattern or directory is left open; the root user can read every directory']
