"""Threads under a controlled scheduler: which thread runs, and where it is preempted, is decided by a plan.

Only the thread that holds the token runs. Threads are traced: every line (or every opcode, or every entry and exit
of a function) executed in the code under test is a scheduling point. A plan is a sequence of (points, thread): run
the thread for that many of its points, or until it ends, then go on with the next entry. When the plan is used up
the remaining threads run to completion in order.
"""
import os
import sys
import threading

FAR = 1 << 50            # 'until it ends'
LINES, OPCODES, CALLS = 'line', 'opcode', 'call'


class Scheduler:
    def __init__(self, top, jobs, plan, grain=LINES, limit=60, trace=None):
        self.top = os.path.realpath(top) + os.sep
        self.grain, self.limit = grain, limit
        self.jobs, self.trace = jobs, trace
        self.n = [0] * len(jobs)              # points passed by each thread
        self.stop = [None] * len(jobs)        # point at which the thread is preempted
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.end = threading.Semaphore(0)
        self.live = set(range(len(jobs)))
        self.plan = list(plan)
        self.out = [None] * len(jobs)
        self.switches = 0
        self._mine = {}

    def next(self):
        """Hand the token to the thread that runs next."""
        while self.plan:
            k, t = self.plan.pop(0)
            if t in self.live:
                self.stop[t] = self.n[t] + k
                self.switches += 1
                self.sems[t].release()
                return
        if self.live:
            t = min(self.live)
            self.stop[t] = None
            self.switches += 1
            self.sems[t].release()
        else:
            self.end.release()

    def ours(self, code):
        f = code.co_filename
        r = self._mine.get(f)
        if r is None:
            r = self._mine[f] = os.path.realpath(f).startswith(self.top)
        return r

    def point(self, t):
        self.n[t] += 1
        if self.n[t] == self.stop[t]:
            self.stop[t] = None
            self.next()
            if not self.sems[t].acquire(timeout=self.limit):
                raise RuntimeError('scheduler: thread is never resumed')
            if not self.traced(t):
                sys.settrace(None)

    def traced(self, t):
        """There are points ahead at which the thread may be preempted."""
        return self.trace is not None or self.stop[t] is not None and self.stop[t] < FAR or any(
            x == t and k < FAR for k, x in self.plan)

    def tracer(self, t):
        grain, point, trace = self.grain, self.point, self.trace

        def local(frame, event, arg):
            if event == grain or (grain == CALLS and event == 'return'):
                if trace is not None:
                    trace.append((frame.f_code.co_filename, frame.f_lineno if grain == LINES else frame.f_lasti, event,
                                  frame.f_code.co_name))
                point(t)
            return local

        def enter(frame, event, arg):
            if not self.ours(frame.f_code):
                return None
            if grain == OPCODES:
                frame.f_trace_opcodes = True
            elif grain == CALLS:
                frame.f_trace_lines = False
                if trace is not None:
                    trace.append((frame.f_code.co_filename, 0, event, frame.f_code.co_name))
                point(t)
            return local
        return enter

    def body(self, t):
        if not self.sems[t].acquire(timeout=self.limit):
            return
        if self.traced(t):
            sys._getframe().f_trace_opcodes = self.grain == OPCODES
            sys.settrace(self.tracer(t))
        try:
            res = ('ok', self.jobs[t]())
        except BaseException as ex:
            res = ('exception', '%s: %s' % (type(ex).__name__, ex))
        finally:
            sys.settrace(None)
        self.out[t] = res
        self.live.discard(t)
        self.next()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.jobs))]
        for x in threads:
            x.start()
        self.next()
        if not self.end.acquire(timeout=2 * self.limit):
            raise RuntimeError('threads do not end')
        for x in threads:
            x.join(self.limit)
        return self.out
