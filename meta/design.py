"""DESIGN.md from its hand-written frame (below) and what the properties, the checks and the planted bugs say.

python3 meta/design.py"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/lib', HERE + '/checks']

HEAD = open(HERE + '/meta/design_head.md').read()
TAIL = open(HERE + '/meta/design_tail.md').read()


def main():
    props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
    man = json.load(open(HERE + '/MANIFEST.json'))
    checks = {c['property']: c for c in man['checks']}
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    seeds = {}
    for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    out = [HEAD.rstrip(), '']
    for p in props:
        i = p['id']
        if i not in checks:
            continue
        mod = importlib.import_module(i)
        out += ['### %s  %s' % (i, p['title']), '', p['statement'], '']
        out += ['* **Method.** %s.' % checks[i]['technique'].rstrip('.'), '* **Rule.** %s' % mod.RULE]
        out += ['* **Ranges over.** %s. %s' % (p['quantifier']['text'].rstrip('.'), p['why_tests_cant'])]
        out += ['* **Limits.** %s' % checks[i]['level_note']]
        if getattr(mod, 'DEEPER', None):
            out += ['* **Thorough.** %s' % mod.DEEPER]
        out += ['* **Anchored at.** %s' % '; '.join('%s (%s)' % (m['where'], m['name']) for m in p['anchors']['mechanism'])]
        for n, d in seeds.get(i, ()):
            out += ['* **Planted bug** `%s` (caught): %s; needs %s.' % (n, d['what_it_breaks'].rstrip('.'), d['needs'].rstrip('.'))]
        out += ['']
    out += ['## Not applicable', '']
    for p in props:
        if p['id'] in na:
            out += ['* **%s %s.** %s' % (p['id'], p['title'], na[p['id']])]
    out += ['', TAIL.rstrip(), '']
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))


main()
