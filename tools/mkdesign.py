"""Writes DESIGN.md from the text below and the BOUNDS / OUTSIDE strings of the harnesses."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
HOW = json.load(open(os.path.join(HERE, 'tools', 'design_how.json')))
out = [HEAD]
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i not in HOW:
        continue
    m = importlib.import_module('props.' + i.lower())
    out.append('### %s %s\n\n%s\n\n* Bounds: %s.\n* Outside: %s.\n' % (
        i, p['title'], HOW[i], m.BOUNDS.rstrip('.'), (m.OUTSIDE or 'nothing stated').rstrip('.')))
out.append(TAIL)
sd = os.path.join(HERE, 'seeded')
by = {}
for s in sorted(os.listdir(sd)):
    meta = json.load(open(os.path.join(sd, s, 'meta.json')))
    by.setdefault(meta['property'], []).append((s, meta))
out.append('## Planted changes and what catches them\n\nAll were confirmed (demonstration passes on the unchanged tree '
           'and fails with the change, tests pass) by `tools/plant.py`; every one is reported by the check of its own '
           'property in the quick tier unless marked.\n')
missed = json.load(open(os.path.join(HERE, 'tools', 'missed.json')))
for p in sorted(by):
    for s, meta in by[p]:
        w = meta['what_it_breaks'].strip().rstrip('.')
        out.append('* %s — `%s`%s: %s' % (p, s, ' (**missed**: %s)' % missed[s] if s in missed else '', w))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
