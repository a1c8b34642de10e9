"""Concurrent analyses do not influence each other"""
import itertools
import os
import sys

from .. import corpus, impl, sched
from ..engine import Space
from .c14 import MTIME

# (file, format, verbose, packet markers, null-terminated XML, MIX)
OPS = {
    'jp2': ('jp2', 'jp2', False, False, False, 0),
    'jp2 verbose': ('jp2', 'jp2', True, False, False, 2),
    'rich': ('jp2-rich', 'jp2', False, True, True, 1),
    'rich plain': ('jp2-rich', 'jp2', True, False, False, 0),
    'jph': ('jph-rich', 'jph', True, False, False, 2),
    'j2c': ('j2c-rich', 'j2c', False, True, False, 0),
    'jhc': ('jhc', 'jhc', True, False, False, 0),
    'bad': ('bad-odd', 'jp2', False, False, False, 0),
    'multi': ('bad-multi', 'jp2', True, True, False, 0),
    'icc': ('jp2-icc', 'jp2', False, False, False, 2),
    'empty': ('bad-empty', 'jp2', False, False, False, 0),
    'nullxml': ('bad-nullxml', 'jp2', False, False, True, 0),
    'gone': (None, 'jp2', False, False, False, 0),
}


def path(name):
    return os.path.join(impl.scratch(), (OPS[name][0] or 'gone') + '.img')


def prepare(names):
    for n in names:
        f = OPS[n][0]
        if f is not None:
            with open(path(n), 'wb') as h:
                h.write(corpus.everything()[f][1])
            os.utime(path(n), MTIME)


def job(name):
    op, p = OPS[name], path(name)
    return lambda: impl.to_text(impl.jpylyzer().checkOneFile(p, *op[1:]))


_alone, _points = {}, {}


def alone(name):
    """Report of the analysis on its own."""
    if name not in _alone:
        prepare([name])

        def plain():
            sys.stderr = impl.NULL
            return job(name)()
        _alone[name] = impl.fresh(plain)
    return _alone[name]


def points(name, grain, visits):
    """Points of the analysis at which it is preempted: those of the first and last `visits` visits of each place (0: all)."""
    key = name, grain
    if key not in _points:
        prepare([name])

        def body():
            sys.stderr = impl.NULL
            places = []
            sched.Scheduler(os.path.join(impl.REPO, 'jpylyzer'), [job(name)], [], grain, trace=places).run()
            num = {}
            return [num.setdefault(p, len(num)) for p in places]
        _points[key] = impl.fresh(body)
    places = _points[key]
    if not visits:
        return range(1, len(places) + 1)
    first, last, out = {}, {}, set()
    for i, p in enumerate(places):
        first[p] = first.get(p, 0) + 1
        if first[p] <= visits:
            out.add(i + 1)
    for i in range(len(places) - 1, -1, -1):
        p = places[i]
        last[p] = last.get(p, 0) + 1
        if last[p] <= visits:
            out.add(i + 1)
    return sorted(out)


class Schedules(Space):
    """All schedules of a group of threads with a given number of preemptions."""

    def __init__(self, name, groups, grain, bound, batch=1, visits=0):
        self.name, self.groups, self.grain, self.bound, self.batch, self.visits = name, groups, grain, bound, batch, visits
        self.rule = '%d groups of %s threads: all schedules with %d preemption%s, at every %s of the code under test%s' % (
            len(groups), '/'.join(sorted({str(len(g)) for g in groups})), bound, 's' if bound > 1 else '',
            {'line': 'line', 'opcode': 'opcode', 'call': 'entry and exit of a function'}[grain],
            ', at the first %d and last %d visits' % (visits, visits) if visits else '')

    def plans(self, g):
        pts = [points(n, self.grain, self.visits) for n in g]
        order = range(len(g))
        if self.bound == 1:
            for a in order:
                for p in pts[a]:
                    for b in order:
                        if b != a:
                            # the others complete while a is suspended
                            yield [(p, a), (1 << 60, b)] + [(1 << 60, c) for c in order if c not in (a, b)]
        elif self.bound == 2:
            for a, b in itertools.permutations(order, 2):
                for p in pts[a]:
                    for q in pts[b]:
                        # a up to p, b up to q, a (or a third thread) to its end, then the rest
                        for c in order:
                            if c != b:
                                yield [(p, a), (q, b), (1 << 60, c)]

    def cases(self):
        for gi, g in enumerate(self.groups):
            some = []
            for p in self.plans(g):
                some.append(p)
                if len(some) == self.batch:
                    yield gi, tuple(map(tuple, some))
                    some = []
            if some:
                yield gi, tuple(map(tuple, some))

    def run(self, case, R):
        gi, plans = case
        g = self.groups[gi]
        for n in g:
            alone(n)
        prepare(g)

        def body():
            sys.stderr = impl.NULL
            res = []
            for plan in plans:
                s = sched.Scheduler(os.path.join(impl.REPO, 'jpylyzer'), [job(n) for n in g], plan, self.grain)
                out = s.run()
                bad = [(i, o[0], o[1] if o[0] != 'ok' else '') for i, (n, o) in enumerate(zip(g, out)) if o != ('ok', _alone[n])]
                res.append((plan, bad, s.switches))
            return res
        for plan, bad, switches in impl.fresh(body):
            R.execs += len(g)
            R.steps += switches
            R.traces += 1
            R.state(gi, plan)
            R.outcome(gi, repr(bad))
            for i, kind, what in bad:
                R.fail('schedule %s: analysis of %s in thread %d: %s' % (
                    [(k if k < 1 << 50 else 'end', t) for k, t in plan], g[i], i,
                    'report differs from that of the analysis alone' if kind == 'ok' else what))

    def show(self, case):
        gi, plans = case
        return '%s: %s' % (self.groups[gi], [[(k if k < 1 << 50 else 'end', t) for k, t in p] for p in plans[:2]])


def spaces(tier):
    t = tier == 'thorough'
    names = list(OPS)
    some = [('jp2', 'rich'), ('jph', 'jp2 verbose'), ('bad', 'icc'), ('j2c', 'multi'), ('rich', 'rich plain'), ('nullxml', 'gone'),
            ('jhc', 'empty')]
    return [
        Schedules('lines', [(a, b) for a, b in itertools.combinations_with_replacement(names, 2)] if t else some,
                  sched.LINES, 1, 25, 3 if t else 1),
        Schedules('three threads', [('jp2', 'rich', 'jph'), ('bad', 'j2c', 'icc')] if t else [('jp2', 'gone', 'jhc')],
                  sched.LINES, 1, 25, 1),
        Schedules('opcodes', [('jp2', 'jp2 verbose'), ('rich', 'jph')] if t else [('jp2', 'jhc')], sched.OPCODES, 1, 25, 1),
        Schedules('two preemptions', [('jp2', 'jhc'), ('jp2', 'jp2 verbose')] if t else [('jp2', 'gone'), ('gone', 'empty')],
                  sched.CALLS, 2, 40, 1),
    ] + ([Schedules('every point', [('jp2', 'jhc'), ('jp2', 'rich')], sched.LINES, 1, 25)] if t else []), [
        'scheduling points inside of the interpreter and the standard library are not explored',
        'standard output and error are shared by threads and not compared']
