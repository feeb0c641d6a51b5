"""Analyses every construct at every alignment of the code position and collects what differs from
the construct's meaning.  Used by the checks of compilation and execution."""
import multiprocessing
import traceback
from constructs import *

GROUPS = {}


def group_of(name):
    for g, keys in (('operator', ('PLUS', 'MINUS', 'STAR', 'SLASH', 'PERCENT', 'OR on', 'AND on', 'SHIFT', 'LT', 'GT',
                                  'EQUALS', 'NOTEQUALS', 'negation', 'logical not', 'LOG_', 'conditional', 'paren', 'cast')),
                    ('literal', ('null', 'bool literal', 'int literal', 'char literal', 'float literal', 'string literal')),
                    ('variable', ('global', 'local', 'parameter', 'int constant', 'float constant', 'bool constant',
                                  'string constant')),
                    ('field', ('field',)), ('constructor', ('constructor',)), ('index', ('index',)), ('call', ('call',))):
        if name.startswith(keys):
            return g
    return 'other'


def all_scenarios(g, groups=None):
    """(group, name, build) of everything"""
    out = []
    for name, build in expressions(g):
        def b(build=build, name=name):
            root, vals, check, order = build()
            return Scn(name, root, vals, check, order, fn='CompileExpr', delta=1)
        out.append((group_of(name), name, b))
    for name, build in statements(g):
        grp = 'call' if name.startswith('call') else 'function' if name.startswith('function') else 'assign'
        out.append((grp, name, build))
    for name, ast in CONTROL.items():
        out.append(('control', name, lambda ast=ast, name=name: control_scn(g, name, ast)))
    for name, ast in MANY.items():
        out.append(('control', name, lambda ast=ast, name=name: control_scn(g, name, ast, 700)))
    if groups:
        out = [x for x in out if x[0] in groups]
    return out


def leaves(ast):
    if isinstance(ast, tuple):
        if ast[0] == 's':
            yield ('s', ast[1])
        elif ast[0] in ('if', 'while'):
            yield ('c', ast[1])
            for x in ast[2:]:
                yield from leaves(x)
        elif ast[0] == 'for':
            yield from leaves(ast[1])
            yield ('c', ast[2])
            yield from leaves(ast[3])
            yield from leaves(ast[4])
        elif ast[0] == 'return_value':
            yield ('v', ast[1])
        else:
            for x in ast[1:]:
                yield from leaves(x)


def control_scn(g, name, ast, limit=8):
    g.nonempty = limit > 8        # sub-statements without code are among the small ones
    root = build_ctl(g, ast)
    rv = (fresh('tr', 8, 0, 8), fresh('vr', 64))
    vals = {}

    def cond(sm, st, once=None):
        b = fresh('b', 8, 0, 1)
        if once:
            n = sum(1 for t in st.x['trace'] if t[:2] == ('eval', once))
            b = int(n % 2 == 1)
        st.x['truths'] = st.x.get('truths', ()) + (b,)
        return (tv(g, 'B'), b)
    for k, n in leaves(ast):
        if k == 'c':
            vals[n] = (lambda sm, st, n=n: cond(sm, st, n)) if 'once' in n else cond
        elif k == 'v':
            vals[n] = rv
    sc = Scn(name, root, vals, None, None)
    sc.limit = limit
    T = g.T

    def on_eval(sm, st, nm):
        d = sm.info(st)
        n = add(d['sp'], sm.sp, -1)
        if n != 0:
            return 'reaches %s with the stack %s higher than where the construct began' % (nm, n)
        return None

    def on_pc(sm, st, pc):
        if is_return(sm, pc):
            return 'returned'
        return None

    def check_path(sm, why, st, tr):
        ev = [t[1] for t in tr if t[0] == 'eval']
        truths = [truth(st, b) for b in st.x.get('truths', ())]
        if None in truths[:-1]:
            return 'ignores the outcome of a condition'
        if truths and truths[-1] is None:
            if why != 'more':
                return 'ignores the outcome of the last condition'
            truths = truths[:-1]
        want, how = ref_trace(ast, truths, limit)
        got = {'end': 'end', 'returned': 'return', 'more': 'more'}.get(why, why)
        if got == 'more':
            if ev != want[:len(ev)]:
                return 'with conditions %s evaluates %s where the language says %s' % (truths, ev, want)
            return None
        if ev != want or got != how:
            return 'with conditions %s evaluates %s and then %s where the language says %s and then %s' % (
                truths, ev, got, want, how)
        if got == 'return' and ev and ev[-1] == 'v':
            r = (T.get(st, sm.thread, 'Tiny_StateThread', 'retVal.type'),
                 st.load(sm.thread, 8, T.off('Tiny_StateThread', 'retVal.i')))
            if r != rv:
                return 'returns %r instead of the value' % (r,)
        return None
    sc.on_eval, sc.on_pc, sc.check_path = on_eval, on_pc, check_path
    return sc


def is_return(sm, pc):
    """is this program counter the one saved in the current frame?"""
    a = pc.atom() if isinstance(pc, Lin) else None
    while a is not None and a.kind == 'op' and a.args[0] in ('zext', 'sext', 'trunc') and isinstance(a.args[1], Lin):
        a = a.args[1].atom()
    if a is None or a.kind != 'init':
        return False
    fr = add(add(sm.thread, sm.g.T.off('Tiny_StateThread', 'frames')), add(sm.fc, -1), sm.g.T.size('Tiny_Frame'))
    return add(E.lin(*a.args), fr, -1) == sm.g.T.off('Tiny_Frame', 'pc')


def listing(g, em, items):
    out = []
    for it in items:
        if it[0] == 'kid':
            out.append('<%s>' % it[3])
        else:
            out.append('%s%s' % (g.vm.names.get(it[2], it[2]),
                                 ''.join(' %r' % (v,) for _, v in sorted(it[3].items()))))
    return '; '.join(out)


def analyse(g, grp, name, build, residue, out):
    """facets: encode, balance, meaning, reject"""
    T = g.T
    g.start(residue)
    sc = build()
    g.seal()
    srcs = {}

    ems = g.compile(sc.fn, sc.root)
    done = 0
    for em in ems:
        if em.kind == 'cut':
            out.append(('limit', grp, name, residue, 'analysis bound', ''))
            continue
        if em.kind != 'ret':
            out.append(('reject', grp, name, residue, 'the compiler ends with %s (%s)' % (em.kind, em.r.val), T.loc(em.r.where)))
            continue
        items, prob = em.decode()
        text = listing(g, em, items)
        bounds = {}
        for it in items:
            if it[0] == 'ins':
                bounds[it[1]] = it[2]
            else:
                bounds[it[1]] = 'kid'
        bounds[em.end] = 'end'
        if prob:
            out.append(('encode', grp, name, residue, prob, text))
        wrong_pc = []

        def on_pc(sm, st, pc, sc=sc):
            f = getattr(sc, 'on_pc', None)
            r = f(sm, st, pc) if f else None
            if r:
                return r
            if pc not in bounds and (isinstance(pc, Lin) and all(a in qatoms for a, k in pc.t) or type(pc) is int and pc >= 0):
                wrong_pc.append(pc)
                return 'stray'
            return None
        limit = getattr(sc, 'limit', 12 + (len(g.opaque) if g.nonempty else 0))
        qatoms = {a for q in g.q for a, k in q.t}
        sm, paths = run_sim(g, em, sc.vals, max_events=limit, max_ins=max(60, 3 * limit), prepare=sc.prepare, on_pc=on_pc,
                            on_eval=sc.on_eval, rettype=getattr(sc, 'rettype', None))
        fin = getattr(sc, 'final', 'end')
        for why, st, tr in paths:
            done += 1
            if why == 'crash' and tr and tr[-1][1] == 'division by zero':
                continue
            if why == 'stray':
                for facet in ('encode', 'meaning'):
                    out.append((facet, grp, name, residue, 'control reaches %r, which is not the start of an instruction '
                                'of the construct' % (wrong_pc[-1],), text))
                continue
            if why in ('limit', 'long', 'cut'):
                out.append(('limit', grp, name, residue, why, ''))
                continue
            if why == 'wrong':
                out.append(('balance', grp, name, residue, tr[-1][1], text))
                continue
            if hasattr(sc, 'check_path'):
                c = sc.check_path(sm, why, st, tr)
            elif why != fin:
                c = 'execution ends with %s %s' % (why, tr[-1][1] if tr and tr[-1][0] == 'stop' else '')
            else:
                c = sc.check(sm, st)
                names = [x[1] for x in tr if x[0] == 'eval']
                if not c and sc.order is not None and names != sc.order:
                    c = 'evaluates %s instead of %s' % (names, sc.order)
            if c:
                out.append(('meaning', grp, name, residue, c, text))
            if why == fin:
                d = balance(sm, st, sc.delta, sc.allow(sm) if sc.allow else ())
                if d:
                    out.append(('balance', grp, name, residue, d, text))
    return done, len(ems)


def _job(a):
    groups, residues, part, nparts = a
    out = []
    stats = {'constructs': 0, 'paths': 0, 'compiler_paths': 0, 'instructions': 0}
    try:
        global _G
        if _G is None:
            _G = Gen(_T)
            _G.start(0)
        g = _G
        g.nins = 0
        for residue in residues:
            for n, (grp, name, build) in enumerate(all_scenarios(g, groups)):
                if n % nparts != part:
                    continue
                E.scenario(60)
                try:
                    d, e = analyse(g, grp, name, build, residue, out)
                except E.Limit as ex:
                    out.append(('limit', grp, name, residue, 'analysis bound ' + str(ex), ''))
                    continue
                except Missing:
                    raise
                except Exception:
                    out.append(('limit', grp, name, residue, traceback.format_exc(), ''))
                    continue
                stats['constructs'] += 1
                stats['paths'] += d
                stats['compiler_paths'] += e
        stats['instructions'] = g.nins
        return out, stats, sorted(g.reached)
    except Missing as ex:
        return ('missing', str(ex))
    except Exception:
        return ('error', traceback.format_exc())


_T = None
_G = None


def run_all(T, groups=None, residues=range(8)):
    global _T
    _T = T
    n = 23
    jobs = [(groups, [r], k, n) for k in range(n) for r in residues]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(int(os.environ.get('TINY_JOBS') or min(8, os.cpu_count() or 1))) as p:
        rs = p.map(_job, jobs, 1)
    out, stats, reached = [], {}, set()
    for r in rs:
        if r[0] == 'missing':
            raise Missing(r[1])
        if r[0] == 'error':
            raise RuntimeError(r[1])
        out += r[0]
        for k, v in r[1].items():
            stats[k] = stats.get(k, 0) + v
        reached |= set(r[2])
    return out, stats, reached


def report(C, out, stats, reached, facets):
    """turn the facets of interest into obligations"""
    seen = {}
    for f, grp, name, residue, msg, text in out:
        if f == 'limit':
            C.undecide('%s at alignment %d: %s' % (name, residue, msg))
            continue
        if f not in facets:
            continue
        k = (f, name, msg)
        seen.setdefault(k, []).append((residue, text))
    for (f, name, msg), l in seen.items():
        C.fail('%s/%s/%s' % (C.pid, f, name), '%s: %s' % (name, msg), 'alignment %s' % sorted({r for r, _ in l}), l[0][1])
    C.ok(n=stats['constructs'])
    C.analysed |= reached
    for k, v in stats.items():
        C.count(k, v)
