"""Writes MANIFEST.json: every property that has a check under mc/checks is claimed."""
import json
import os

V = '/verif'
TECH = {
    'file': 'explicit-state exploration of the real code: every file of a bounded space is analysed and the report compared with '
            'an independent executable reference model of the standard (each execution replays a model trace)',
    'diff': 'explicit-state exploration of the real code: every case of a bounded space is executed and related to its '
            'counterpart executions and to the reference model',
    'hist': 'stateless model checking of the real code: all bounded histories of analyses executed in fresh processes',
    'fault': 'stateless model checking with fault injection: every failure kind at every operating system call of bounded batches',
    'sched': 'stateless model checking of the real code: threads under a controlled scheduler, all schedules up to a preemption bound',
    'conf': 'explicit-state exploration of the real program: all bounded combinations of settings of the process, each run in an interpreter of '
            'its own and related to the run in the ordinary setting',
    'tree': 'explicit-state exploration of the real program: all bounded directory trees, argument lists and options against a '
            'reference model of file selection and of the command line',
}
KIND = {'C12': 'diff', 'C13': 'diff', 'C14': 'hist', 'C15': 'diff', 'C16': 'tree', 'C20': 'diff', 'C22': 'fault', 'C23': 'diff',
        'C25': 'sched', 'C26': 'tree', 'C10': 'fault', 'C11': 'fault', 'C27': 'fault', 'C28': 'conf'}
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    if not os.path.exists('%s/mc/checks/%s.py' % (V, i.lower())):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    cmd = 'cd /verif && /opt/venv/bin/python -m mc.run %s --tier %%s' % i
    checks.append({'property': i, 'quick_cmd': cmd % 'quick', 'thorough_cmd': cmd % 'thorough',
                   'technique': TECH[KIND.get(i, 'file')], 'level': 'model_checking',
                   'level_note': 'exhaustive within the bounds listed per space in the evidence file and in DESIGN.md; nothing is sampled'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import lxml, sys; sys.path.insert(0, \'/verif\'); import mc.spec"',
           'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
