"""Runs the check of one property: all its spaces, evidence file, replays, exit status."""
import argparse
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time

from . import engine, impl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    """Known findings of a property: {key: description}."""
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('id='):
                out[w[2][3:]] = w[3].strip()
    return out


def write_replay(prop, space, fail, num, tier):
    i, case, msgs, files = fail
    d = os.path.join(HERE, 'replays', prop)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%d' % (space.name.replace('/', '_').replace(' ', '_'), num))
    names = []
    for name, data in files.items():
        p = base + '.' + name.replace('/', '_')
        with open(p, 'wb') as f:
            f.write(data)
        names.append(os.path.basename(p))
    path = base + '.json'
    with open(path, 'w') as f:
        json.dump({'property': prop, 'space': space.name, 'index': i, 'case': repr(pickle.loads(case)),
                   'what_fails': msgs, 'files': names,
                   'replay': 'cd /verif && /opt/venv/bin/python -m mc.run %s --tier %s --replay %s' % (prop, tier, path)},
                  f, indent=1)
    return path


def late(*_):
    """A quick check takes a minute or two; if it is not done by now, the program hangs where no case is watched."""
    for p in multiprocessing.active_children():
        p.kill()
    raise TimeoutError('no end after 840 s')


def main(prop, title, spaces_of, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', choices=('quick', 'thorough'),
                    default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--jobs', type=int, default=max(1, min(8, len(os.sched_getaffinity(0)))))
    ap.add_argument('--space', default=None, help='only spaces whose name contains this')
    ap.add_argument('--replay', default=None)
    ap.add_argument('--failfast', action='store_true', help='stop after the first space with a violation')
    ap.add_argument('--stats', action='store_true')
    a = ap.parse_args(argv)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    t0 = time.time()
    if a.tier == 'quick' and not a.replay:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(840)
    spaces, notes = spaces_of(a.tier)
    if a.replay:
        return replay(spaces, a.replay)
    if a.space:
        spaces = [s for s in spaces if a.space in s.name]
    impl.jpylyzer()
    kf = known_findings(prop)
    tot = dict(states=0, outcomes=set(), cases=0, execs=0, traces=0, steps=0)
    detail, samples, viol, seen_known, complete = [], [], [], {}, True
    for si, sp in enumerate(spaces):
        t1 = time.time()
        try:
            d = engine.explore(spaces, si, a.jobs)
        except Exception as ex:
            # The program cannot even do what is needed to set the space up (undisturbed runs and the like).
            viol.append((sp, (-1, pickle.dumps(None), ['space cannot be explored: %s: %s' % (type(ex).__name__, str(ex)[-1200:])], {})))
            complete = False
            break
        tot['states'] += len(d['states'])
        tot['outcomes'] |= d['outcomes']
        for f in ('cases', 'execs', 'traces', 'steps'):
            tot[f] += d[f]
        for key, msg in d['known']:
            if key in kf:
                seen_known[key] = msg
            else:
                viol.append((sp, (-1, pickle.dumps(key), ['finding %s is not listed: %s' % (key, msg)], {})))
        for n, f in enumerate(d['fails'][:5]):
            viol.append((sp, f))
        complete = complete and not d['stopped']
        samples += ['%s #%d: %s' % (sp.name, i, s) for i, s in sorted(d['samples'])[:2]]
        detail.append({'space': sp.name, 'rule': sp.rule, 'cases': d['cases'], 'states': len(d['states']),
                       'executions': d['execs'], 'distinct_outcomes': len(d['outcomes']),
                       'complete': not d['stopped'], 'wall_s': round(time.time() - t1, 2)})
        if a.stats:
            print('%-34s cases %7d exec %7d states %7d outcomes %6d %6.1fs%s' % (
                sp.name, d['cases'], d['execs'], len(d['states']), len(d['outcomes']), time.time() - t1,
                '  FAIL %d' % len(d['fails']) if d['fails'] else ''))
        if len(viol) >= 5 or viol and (time.time() - t0 > 120 or a.failfast):
            complete = False
            break
    for key, msg in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, kf[key]))
    paths = []
    for n, (sp, f) in enumerate(viol[:5]):
        paths.append(write_replay(prop, sp, f, n, a.tier))
    ev = {'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED') or 0),
          'level': 'model_checking',
          'coverage': {
              'states': tot['states'], 'transitions': tot['steps'],
              'traces_validated_against_impl': tot['traces'],
              'evaluations': tot['execs'], 'distinct_nontrivial': len(tot['outcomes']),
              'cases': tot['cases'],
              'rule': 'states: distinct inputs (file contents, options, histories) enumerated; transitions: '
                      'steps of the reference model (boxes, marker segments, tile-parts, operations) along all '
                      'of them; traces: model traces compared with what the implementation reported; '
                      'evaluations: executions of the implementation; distinct_nontrivial: distinct reports '
                      'observed. Every case of every space below is executed, none is sampled.',
              'samples': samples[:40], 'spaces': detail, 'exhaustive': complete,
              'known_findings_seen': sorted(seen_known)},
          'assumptions': notes, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    if not a.space:
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    signal.alarm(0)
    if tot['cases'] == 0 and not viol:
        print('no case executed')
        return 2
    for (sp, f), p in zip(viol, paths):
        print('%s case %d: %s' % (sp.name, f[0], '; '.join(f[2][:4])[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    print('%s %s: %d cases, %d states, %d executions, %d distinct outcomes, %d violations, %.1f s' % (
        prop, a.tier, tot['cases'], tot['states'], tot['execs'], len(tot['outcomes']), len(viol),
        time.time() - t0))
    return 1 if viol else 0


def replay(spaces, path):
    """Execute one recorded case again, twice, and print what fails."""
    rec = json.load(open(path))
    sp = next(s for s in spaces if s.name == rec['space'])
    if rec['index'] < 0:
        print('\n'.join(rec['what_fails']))
        return 1
    case = next(c for i, c in enumerate(sp.cases()) if i == rec['index'])
    sp.setup()
    try:
        runs = [engine.run_case(sp, case, engine.Recorder()) for _ in range(2)]
    finally:
        sp.teardown()
        impl.cleanup()
    print('case:', sp.show(case))
    for m in runs[0]:
        print('  ', m)
    print('same on second execution' if runs[0] == runs[1] else 'DIFFERENT on second execution: %s' % runs[1])
    return 1 if runs[0] else 0
