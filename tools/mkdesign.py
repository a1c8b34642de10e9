"""Writes DESIGN.md: prose from tools/design.md, the list of spaces from the checks themselves, planted bugs from seeded/."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def section(pid, title, prose):
    m = importlib.import_module('mc.checks.' + pid.lower())
    quick, notes = m.spaces('quick')
    thorough, _ = m.spaces('thorough')
    out = ['### %s %s' % (pid, title), '', prose.strip(), '', 'Spaces, each enumerated completely (quick; *thorough* where it differs):', '']
    deep = {s.name: s.rule for s in thorough}
    for s in quick:
        d = deep.pop(s.name, None)
        out.append('- %s: %s%s' % (s.name, s.rule, '' if d in (None, s.rule) else '; *%s*' % d))
    for n, r in deep.items():
        out.append('- *%s: %s* (thorough only)' % (n, r))
    if notes:
        out += ['', 'Left out: ' + '; '.join(notes) + '.']
    return '\n'.join(out) + '\n'


def bugs():
    caught = {}
    p = os.path.join(HERE, 'tools', 'caught.json')
    if os.path.exists(p):
        with open(p) as f:
            caught = json.load(f)
    out = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        with open(d) as f:
            m = json.load(f)
        n = os.path.basename(os.path.dirname(d))
        out.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], caught.get(n, m['property'] + ' quick')))
    return '\n'.join(out)


def main():
    with open(os.path.join(HERE, 'tools', 'design.md'), encoding='utf-8') as f:
        text = f.read()
    head, rest = text.split('<<<PROPERTIES>>>\n')
    props, tail = rest.split('<<<END>>>\n')
    titles = {}
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            titles[d['id']] = d['title']
    prose = {}
    for part in props.split('\n@')[0:]:
        part = part.lstrip('@')
        if part.strip():
            pid, _, body = part.partition('\n')
            prose[pid.strip()] = body
    secs = [section(p, titles[p], prose.get(p, '')) for p in sorted(titles)]
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write(head + '\n'.join(secs) + '\n' + tail.replace('<<<BUGS>>>', bugs()))


main()
