"""Exhaustive explorer: enumerates every case of a finite space and checks each on the real code.

A space is a deterministic, finite enumeration of cases (simplest first) together with a function
that executes one case on the implementation and judges it. The cases of a space are dealt to worker
processes by index; nothing is sampled, and unless a violation stops the run every case is executed.
A parent process watches the workers: a case that uses up its CPU limit, or on which the worker dies,
is itself reported as a violation (after it did so again in a fresh process).
"""
import gc
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback

CPU_LIMIT = 40.0          # CPU seconds one case may take (typical: a millisecond)
WALL_LIMIT = 400.0
MEM_LIMIT = 3 << 30
MAX_FAILS = 3


def h8(*parts):
    """64-bit identity of a tuple of values (the same in all workers of a run)."""
    return hash(parts)


class Recorder:
    """What the executions of one worker covered."""

    def __init__(self):
        self.states, self.outcomes = set(), set()
        self.cases = self.execs = self.traces = self.steps = 0
        self.fails, self.samples, self.known = [], [], []
        self._files, self._msgs = {}, []

    # used by run(case, R)
    def state(self, *key):
        self.states.add(h8(*key))

    def outcome(self, *key):
        self.outcomes.add(h8(*key))

    def fail(self, msg):
        self._msgs.append(str(msg)[:2000])

    def file(self, name, data):
        """File that belongs to the case, written beside the replay if the case fails."""
        self._files[name] = data

    # used by the engine
    def begin(self):
        self._files, self._msgs = {}, []

    def data(self):
        return dict(states=self.states, outcomes=self.outcomes, cases=self.cases, execs=self.execs,
                    traces=self.traces, steps=self.steps, fails=self.fails, samples=self.samples,
                    known=self.known)


class Space:
    """Base class; subclasses define cases() and run(case, R)."""
    name = 'space'
    rule = ''
    stop = MAX_FAILS

    def cases(self):
        raise NotImplementedError

    def run(self, case, R):
        raise NotImplementedError

    def show(self, case):
        return case

    def known(self, case):
        """Key of a known finding this case is expected to show, or None."""
        return None

    def setup(self):
        pass

    def teardown(self):
        pass


class FnSpace(Space):
    def __init__(self, name, rule, cases, run, show=None, setup=None):
        self.name, self.rule, self._cases, self._run, self._show = name, rule, cases, run, show
        self._setup = setup

    def setup(self):
        if self._setup:
            self._setup()

    def cases(self):
        return self._cases()

    def run(self, case, R):
        return self._run(case, R)

    def show(self, case):
        return self._show(case) if self._show else case


def run_case(space, case, R):
    """Execute one case; returns list of messages (empty: held)."""
    R.begin()
    try:
        space.run(case, R)
    except MemoryError:
        R.fail('memory exhausted (limit %d MB)' % (MEM_LIMIT >> 20))
    except Exception as ex:                     # by the code under test, or because its report is unusable
        last = traceback.extract_tb(ex.__traceback__)[-1]
        R.fail('exception %s: %s (%s:%s)' % (type(ex).__name__, str(ex)[:300],
                                             os.path.basename(last.filename), last.name))
    except SystemExit as ex:
        R.fail('program exit %r' % (ex.code,))
    return list(R._msgs)


def _worker(spaces, si, k, n, beat, conn, only=None, skip=()):
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        from . import impl
        impl._dir = None
        impl.jpylyzer()
        space = spaces[si]
        R = Recorder()
        space.setup()
        gc.collect()
        gc.freeze()
        gc.set_threshold(20000, 20, 50)
        try:
            for i, case in enumerate(space.cases()):
                if only is not None:
                    if i != only:
                        continue
                elif i % n != k or i in skip:
                    continue
                beat[3 * k + 1] = time.process_time()
                beat[3 * k + 2] = time.monotonic()
                beat[3 * k] = i
                msgs = run_case(space, case, R)
                R.cases += 1
                if len(R.samples) < 2 and (i >= 40 or i < n):
                    R.samples.append([i, str(space.show(case))[:400]])
                if msgs:
                    kf = space.known(case)
                    if kf:
                        R.known.append((kf, msgs[0]))
                    else:
                        R.fails.append((i, pickle.dumps(case), msgs[:20], dict(R._files)))
                        if len(R.fails) >= space.stop:
                            beat[-1] = 1
                if only is not None or beat[-1]:
                    break
            beat[3 * k] = -1
        finally:
            space.teardown()
            impl.cleanup()
        conn.send(R.data())
    except BaseException:
        try:
            conn.send({'error': traceback.format_exc()})
        except BaseException:
            pass
        code = 3
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(code)


def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rpartition(')')[2].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


class Killed(Exception):
    pass


def _collect(procs, beat, n):
    """Wait for all workers. Returns ({k: data}, {k: (index, why)} for workers lost)."""
    done, lost = {}, {}
    pending = dict(procs)
    while pending:
        for k in list(pending):
            p, c = pending[k]
            if c.poll(0.02):
                try:
                    done[k] = c.recv()
                except EOFError:
                    p.join(5)
                    lost[k] = (int(beat[3 * k]), 'process died (exit code %s)' % p.exitcode)
                p.join(10)
                if p.is_alive():
                    p.kill()
                del pending[k]
                continue
            i = int(beat[3 * k])
            if i >= 0:
                cpu, wall = _cpu(p.pid) - beat[3 * k + 1], time.monotonic() - beat[3 * k + 2]
                if i == int(beat[3 * k]) and (cpu > CPU_LIMIT or (wall > WALL_LIMIT and cpu < 5)):
                    p.kill()
                    p.join(10)
                    if c.poll(0):
                        try:
                            done[k] = c.recv()
                            del pending[k]
                            continue
                        except EOFError:
                            pass
                    lost[k] = (i, 'no result after %d s CPU, %d s' % (cpu, wall))
                    del pending[k]
        time.sleep(0.01)
    return done, lost


def explore(spaces, si, jobs):
    """Run one space completely. Returns merged data."""
    ctx = mp.get_context('fork')
    n = jobs
    total = dict(states=set(), outcomes=set(), cases=0, execs=0, traces=0, steps=0, fails=[], samples=[],
                 known=[], stopped=False)
    skip = set()

    def merge(d):
        if 'error' in d:
            raise RuntimeError(d['error'])
        total['states'] |= d['states']
        total['outcomes'] |= d['outcomes']
        for f in ('cases', 'execs', 'traces', 'steps'):
            total[f] += d[f]
        for f in ('fails', 'samples', 'known'):
            total[f] += d[f]

    todo = list(range(n))
    for _ in range(4):
        beat = ctx.Array('d', 3 * n + 1, lock=False)
        procs = {}
        for k in todo:
            beat[3 * k] = -1
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(spaces, si, k, n, beat, b, None, frozenset(skip)))
            p.start()
            b.close()
            procs[k] = (p, a)
        done, lost = _collect(procs, beat, n)
        for d in done.values():
            merge(d)
        if not lost:
            break
        # Confirm in a fresh process, then go on without the case.
        for k, (i, why) in lost.items():
            if i < 0:
                raise RuntimeError('worker lost outside of a case: ' + why)
            beat2 = ctx.Array('d', 3 * n + 1, lock=False)
            beat2[0] = -1
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(spaces, si, 0, 1, beat2, b, i))
            p.start()
            b.close()
            d2, l2 = _collect({0: (p, a)}, beat2, 1)
            case = next(c for j, c in enumerate(spaces[si].cases()) if j == i)
            kf = spaces[si].known(case)
            if l2:
                if kf:
                    total['known'].append((kf, l2[0][1]))
                else:
                    total['fails'].append((i, pickle.dumps(case), [l2[0][1]], {}))
            elif d2[0].get('fails'):
                total['fails'] += d2[0]['fails']
            else:
                sys.stderr.write('note: case %d of %s: %s, but not when run alone\n' % (
                    i, spaces[si].name, why))
                merge(d2[0])
            skip.add(i)
            if total['fails']:
                break
        if total['fails']:
            total['stopped'] = True
            break
        todo = sorted(lost)
    else:
        raise RuntimeError('workers keep dying in ' + spaces[si].name)
    total['stopped'] = total['stopped'] or bool(total['fails'])
    total['fails'].sort(key=lambda f: f[0])
    return total
