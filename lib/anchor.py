"""Internal functions the rules are anchored on may have been given another name: the new name of a function that is gone
is the one new function which looks most like it (its types, what it calls and what it is made of).

python3 lib/anchor.py   rewrites anchors.json from the current tree"""
import difflib
import json
import os
import re
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'anchors.json')
DATA = os.path.join(HERE, 'anchors_data.json')


def features(m, f):
    fn = m.funcs[f]
    body = Counter()
    for i in fn.insts():
        body['op ' + i.op] += 1
        if i.op == 'call':
            n = getattr(i.x[0], 'name', None)
            if n and not n.startswith('llvm.'):
                body['call ' + n.split('.')[0]] += 3
    return body


def signature(m, f):
    fn = m.funcs[f]
    d = m.md(fn.dbg) if fn.dbg else None
    if not d:
        return '?'
    out = []
    for t in m.md(m.md(d['type'])['types']):
        out.append('void' if t == 'null' else describe(m, t))
    return ' '.join(out)


def describe(m, t, depth=0):
    d = m.md(t)
    if d.get('name'):
        return d['name']
    if depth > 5:
        return '?'
    k = d.get('tag', '').replace('DW_TAG_', '')
    b = d.get('baseType')
    return k + ('(' + describe(m, b, depth + 1) + ')' if b and b != 'null' else '')


def table(m):
    return {n: [signature(m, n), dict(features(m, n))] for n, f in m.funcs.items() if not f.decl and '.' not in n}


def alike(a, b):
    a, b = Counter(a), Counter(b)
    n = sum((a | b).values())
    return sum((a & b).values()) / n if n else 1.0


def renames(m, data=None):
    """{name in the current tree: name the rules know it under}"""
    try:
        with open(FILE) as fh:
            base = json.load(fh)
    except OSError:
        return {}
    have = {n for n, f in m.funcs.items() if not f.decl and '.' not in n}
    gone = [n for n in base if n not in have]
    if not gone:
        return {}
    new = {n: (signature(m, n), features(m, n)) for n in have if n not in base}
    for old_name in [(a, b) for a, b in (data or {}).get('structs', {}).items()]:
        new = {n: (re.sub(r'\b%s\b' % re.escape(old_name[0]), old_name[1], s), b) for n, (s, b) in new.items()}
    out, taken = {}, set()
    while True:
        pairs = []
        for g in gone:
            for n, (s, b) in new.items():
                if s == base[g][0] and g not in taken and n not in out:
                    # what it calls, under the names known so far
                    c = Counter({('call ' + out.get(k[5:], k[5:]) if k.startswith('call ') else k): v for k, v in b.items()})
                    pairs.append((alike(c, base[g][1]), g, n))
        pairs.sort(reverse=True)
        if not pairs or pairs[0][0] < 0.4:
            return out
        best = pairs[0][0]
        for score, g, n in pairs:
            if score >= max(0.4, best - 0.05) and g not in taken and n not in out:
                out[n] = g
                taken.add(g)


# ------------------------------------------------------------------ data: structs, members, enumerators, variables
def own(m, ref):
    d = m.md(ref)
    f = m.md(d['file']) if d.get('file') else None
    return '/usr/' not in os.path.join((f or {}).get('directory', ''), (f or {}).get('filename', ''))


def typename(m, t, names=()):
    try:
        n = m.type_name(t)
    except Exception:
        return '?'
    for new, old in dict(names).items():
        n = re.sub(r'\b%s\b' % re.escape(new), old, n)
    return n


def structs(m, names=()):
    m.enums()
    out = {}
    for n, ref in m._di_structs.items():
        if 'elements' in m.md(ref) and own(m, ref) and not n.startswith('__'):
            out[n] = [[k, o, s, typename(m, t, names)] for k, (o, s, t) in m.struct(n)['members'].items()]
    return out


def enumerations(m):
    out = []
    for ref, t in m.mdtext.items():
        if 'DW_TAG_enumeration_type' in t and own(m, ref):
            g = [m.md(e)['name'] for e in m.md(m.md(ref)['elements'])]
            if g not in out:
                out.append(g)
    return sorted(out)


def variables(m):
    return {n: str(g.ty) for n, g in m.globals.items() if n and not n.startswith('.') and '.' not in n}


def data_table(m):
    return {'structs': structs(m), 'enums': enumerations(m), 'globals': variables(m)}


def pair_members(base, cur):
    """{current member: member of old} for those that are gone"""
    have = {x[0] for x in cur}
    known = {x[0] for x in base}
    gone = [x for x in base if x[0] not in have]
    new = [x for x in cur if x[0] not in known]
    out = {}

    def take(g, n):
        out[n[0]] = g[0]
        gone.remove(g)
        new.remove(n)
    last = lambda x: x[0].split('.')[-1]
    for g in list(gone):                 # moved into or out of another struct, or below a renamed member
        c = [n for n in new if last(n) == last(g) and n[3] == g[3]]
        if len(c) > 1:
            pre = {out_n: old for out_n, old in out.items()}
            c = [n for n in c if pre.get(n[0].rpartition('.')[0]) == g[0].rpartition('.')[0]] or c
        if len(c) == 1:
            take(g, c[0])
    for up in (True, False):
        for ty in sorted({g[3] for g in gone}):
            gs = [g for g in gone if g[3] == ty]
            ns = [n for n in new if n[3] == ty]
            if len(gs) == len(ns):
                for g, n in zip(gs, ns):
                    take(g, n)
            else:
                for g in gs:
                    c = [n for n in ns if n in new and difflib.SequenceMatcher(None, last(g).lower(), last(n).lower()).ratio() > 0.5]
                    if len(c) == 1:
                        take(g, c[0])
    return out


def data_renames(m):
    """-> {'structs': {new: old}, 'members': {old struct: {new: old}}, 'enums': {new: old}, 'globals': {new: old}}"""
    out = {'structs': {}, 'members': {}, 'enums': {}, 'globals': {}}
    try:
        with open(DATA) as fh:
            base = json.load(fh)
    except OSError:
        return out
    cur = structs(m)
    gone = [n for n in base['structs'] if n not in cur]
    fresh = [n for n in cur if n not in base['structs']]
    score = []
    for g in gone:
        for n in fresh:
            a, b = Counter((x[0], x[2]) for x in base['structs'][g]), Counter((x[0], x[2]) for x in cur[n])
            score.append((sum((a & b).values()) / max(1, sum((a | b).values())), g, n))
    for v, g, n in sorted(score, reverse=True):
        if v > 0.5 and n not in out['structs'] and g not in out['structs'].values():
            out['structs'][n] = g
    cur = structs(m, out['structs'])
    for n, ms in cur.items():
        o = out['structs'].get(n, n)
        if o in base['structs']:
            r = pair_members(base['structs'][o], ms)
            if r:
                out['members'][n] = r
    groups = enumerations(m)
    allold = {x for g in base['enums'] for x in g}
    allnew = {x for g in groups for x in g}
    for g in base['enums']:
        lost = [x for x in g if x not in allnew]
        if not lost:
            continue
        mate = [c for c in groups if len(set(c) & set(g)) * 2 >= len(g) or (c[0] not in allold and len(c) == len(g))]
        for c in mate[:1]:
            add = [x for x in c if x not in allold]
            if len(add) == len(lost):
                out['enums'].update(zip(add, lost))
            else:
                for x in lost:
                    y = difflib.get_close_matches(x, add, 1, 0.7)
                    if y:
                        out['enums'][y[0]] = x
    vs = variables(m)
    lost = {n: t for n, t in base['globals'].items() if n not in vs}
    add = {n: t for n, t in vs.items() if n not in base['globals']}
    for n, t in lost.items():
        c = [x for x, u in add.items() if u == t]
        if len(c) == 1:
            out['globals'][c[0]] = n
    return out


def install(m, r):
    """make the module answer to the names the rules know"""
    m.enums()
    for new, old in r['structs'].items():
        ref = m._di_structs[new]
        m._di_structs[old] = ref
        for k, names in m._di_names.items():
            if new in names:
                names.insert(0, old)
    m.aliases = {}
    for new, ms in r['members'].items():
        for n in (new, r['structs'].get(new)):
            if n:
                m.aliases[n] = ms
                m._fn_meta.pop(n, None)
    m._fn_meta.clear()
    m.enum_alias = r['enums']
    for new, old in r['enums'].items():
        m._enums[old] = m._enums.pop(new)


def apply(text, names):
    def sub(x):
        return '@' + names.get(x.group(1), x.group(1)) if x.group(1) in names else x.group(0)
    return re.sub(r'@([A-Za-z_][\w.$]*)', sub, text)


if __name__ == '__main__':
    import sys
    sys.path.insert(0, HERE)
    import ir
    import tiny
    m = ir.Module(tiny.build_ir())
    m.enums()
    with open(FILE, 'w') as fh:
        json.dump(table(m), fh, indent=0, sort_keys=True)
    with open(DATA, 'w') as fh:
        json.dump(data_table(m), fh, indent=0, sort_keys=True)
