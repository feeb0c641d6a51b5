"""Library functions keep to their signatures."""
from natworld import *
from libplay import Play

LEVEL = 'other'
FLOOR = 400
RULE = ('Every native function the library binds is found with its script signature by interpreting the binding functions and '
        'the array macro, and interpreted on opaque arguments of exactly the declared types (every representation of a text, '
        'every kind of value for any) and, for signatures with ..., on up to three further arguments of every kind. On every '
        'path the accessors must be applied to arguments of the type they are for, no argument beyond those passed may be '
        'read, the result must be of the declared type (null only where the type admits it), texts passed in must be left '
        'alone, every file that was opened is closed (unless it is the result), and every block that was allocated belongs to '
        'a listed object or was released; nothing is released twice or used after release.')


_nulls = set()


def null_result(T, C, sig, when):
    name, args, va, ret, cfn = sig
    if (name, when) in _nulls:
        return
    _nulls.add((name, when))
    C.fail('C24/null-result/%s/%s' % (name, when), '%s gives null %s although it is declared to return %s' % (name, when, ret), T.where(cfn))


def one(T, C, sig, labels, extra, stdin=b'abc\n'):
    name, args, va, ret, cfn = sig
    rt = Rt(T)
    rt.texts = []
    libc = Libc(T, rt, stdin)
    for f in ('globalSymbols', 'pcToFileLine'):
        T.set(rt.st, rt.state, 'Tiny_State', f, 0)
    vals = []
    for lab, mk in labels:
        vals.append(mk(rt))
    hooks = libc.hooks()
    hooks.update(accessor_hooks(T, rt))
    what = '%s(%s)' % (name, ', '.join(l for l, _ in labels))
    before = set(rt.st.x.get('live', frozenset()))
    n0 = len(rt.st.events())
    try:
        rs, reached = call(rt, cfn, vals, hooks=hooks, visits=20000)
    except E.Limit as e:
        C.undecide('%s: %s' % (what, e))
        return
    C.analysed |= reached
    C.count('paths', len(rs))
    for r in rs:
        st = r.st
        ev = st.events()[n0:]
        bad = [e[1] for e in ev if e[0] == 'bad']
        if r.kind in ('crash', 'bad') and not bad:
            bad.append(str(r.val))
        if r.kind == 'cut':
            bad.append('it does not finish')
        if not extra:
            for e in ev:
                if e[0] == 'accessor':
                    bad.append('%s is applied to an argument of type %s' % (e[1], str(e[2]).lower()))
        key = 'C24/' + name
        if r.kind == 'ret':
            t, p = result(r)
            if isinstance(t, Lin):
                c = st.const_of(t)
                t = c if c is not None else t
            if not isinstance(t, int):
                if ret is not None and ret not in ('any', 'void'):
                    bad.append('the type of the result is %r' % (t,))
            elif not result_fits(rt, ret, t, p):
                if t == rt.VT['NULL']:
                    null_result(T, C, sig, 'when the file cannot be opened' if [e for e in ev if e[0] == 'noopen']
                                else 'when the file has no size or is too large' if [e for e in ev if e[0] == 'nosize'] else 'for ' + what)
                else:
                    bad.append('the result is of type %s, declared %s' % (rt.VN.get(t, t).lower(), ret))
            # memory
            live = set(st.x.get('live', frozenset()))
            left = live - before - owned_blocks(rt, st)
            if left:
                bad.append('it leaves memory behind (%s)' % ', '.join(sorted(a.name for a in left)))
            gone = before - live
            gone = {a for a in gone if a.name != 'arguments'}
            if gone:
                bad.append('it releases %s' % ', '.join(sorted(a.name for a in gone)))
            for q, s in rt.texts:
                got = bytes((st.load(q, 1, k) & 255) if type(st.load(q, 1, k)) is int else 0 for k in range(len(s)))
                if got != s:
                    bad.append('it changes a text it was given')
            if rt.listed(st) is None or rt.G('numObjects', st) != len(rt.listed(st)):
                bad.append('the list of objects and its count disagree')
        opened = [e for e in ev if e[0] == 'open']
        closed = [e for e in ev if e[0] == 'close']
        if r.kind == 'ret' and opened:
            t, p = result(r)
            gives = t == rt.VT['NATIVE'] and T.get(st, p, 'Tiny_Object', 'nat.addr') is libc.FILE
            if len(closed) + (1 if gives else 0) != len(opened):
                bad.append('a file is opened %d times and closed %d times' % (len(opened), len(closed)))
        if [e for e in closed if e[1] is not libc.FILE]:
            bad.append('something that is not an open file is closed')
        if bad:
            C.fail(key, '%s: %s' % (what, '; '.join(list(dict.fromkeys(bad))[:3])), T.loc(r.where) if r.where else T.where(cfn))
        else:
            C.ok(what)


def plain(T, C, L):
    done = 0
    for sig in L.sigs:
        name, args, va, ret, cfn = sig
        if cfn is None or cfn not in T.funcs:
            C.undecide('%s is bound to something that is not a function of the library' % name)
            continue
        rt0 = Rt(T)
        sets = argument_sets(args, va, Libc(T, rt0))
        if sets is None:
            continue
        if cfn in reenter(T) or name in ('dict', 'dict_str_int'):
            continue
        done += 1
        for labels, extra in sets:
            one(T, C, sig, labels, extra)
        if args is None:
            for lab in kinds('any', Libc(T, rt0)):
                one(T, C, sig, [lab], True)
    C.count('native_functions', done)
    for sig in L.sigs:
        if sig[0] == 'input' and sig[4] in T.funcs:
            for text in GETS:
                one(T, C, sig, [], True, stdin=text)


_re = {}


def reenter(T):
    """natives which run the machine"""
    if 'x' not in _re:
        _re['x'] = {f for f in T.funcs if 'Tiny_ExecuteCycle' in T.reach([f]) or 'ExecuteCycle' in T.reach([f])
                    or 'Tiny_CallFunction' in T.reach([f])}
    return _re['x']


# ------------------------------------------------------------------ containers
def containers(T, C, L):
    """the functions of arrays and dictionaries with arguments of their declared types"""
    groups = []
    for elem, alias in (('int', 'array_int'), ('float', 'array_float'), ('bool', 'array_bool'), ('str', 'array_str'), ('any', 'array_any'),
                        ('Thing', 'array_thing')):
        out, rs = L.arrays(elem, alias)
        groups.append((alias, elem, out))
    for d in ('dict', 'dict_str_int'):
        groups.append((d, None, [s for s in L.sigs if s[1] is not None and (s[0] == d or (s[1] and s[1][0] == d))]))
    n = 0
    for alias, elem, sigs in groups:
        for sig in sigs:
            name, args, va, ret, cfn = sig
            if cfn not in T.funcs:
                C.undecide(name)
                continue
            for fill in (0, 2):
                container_call(T, C, L, alias, elem, sig, fill)
                n += 1
    C.count('container_calls', n)


def elem_value(rt, ty, k):
    if ty in (None, 'any'):
        return [('INT', 7), ('INT', 1 << 40)][k % 2]
    if ty == 'int':
        return ('INT', k)
    if ty == 'float':
        return ('FLOAT', fresh('f', 64))
    if ty == 'bool':
        return ('BOOL', k & 1)
    if ty == 'str':
        nm = 'str%d' % len(rt.objs)
        rt.new(nm, 'string')
        return nm
    nm = 'thing%d' % len(rt.objs)
    rt.new(nm, 'struct', 1)
    return nm


def container_call(T, C, L, alias, elem, sig, fill):
    name, args, va, ret, cfn = sig
    p = Play(T, L)
    rt = p.rt
    isdict = elem is None
    items = []
    for k in range(fill):
        items.append(elem_value(rt, elem if not isdict else 'str', k))
        if isdict:
            items.append(elem_value(rt, 'int', k))
    if args and args[0] == alias:
        v = p.make(alias, *items, name='C')
        if v is None or v[0] != 'value':
            C.undecide('%s: no %s' % (name, alias))
            return
        vals = ['C']
        for k, t in enumerate(args[1:]):
            if t == 'int' and elem != 'int' or (t == 'int' and k == 0 and ('_get' in name or '_set' in name or 'remove' in name or 'insert' in name)):
                vals.append(('INT', 0))
            elif t == 'str' and isdict:
                vals.append(items[0] if items else elem_value(rt, 'str', 0))
            elif t == 'any' and isdict:
                vals.append(items[0] if items and k == 0 else elem_value(rt, 'int', 1))
            else:
                vals.append(elem_value(rt, t, 1))
    else:
        vals = items
    what = '%s on %s with %d entries' % (name, alias, fill)
    hooks = accessor_hooks(T, rt)
    p.hooks = hooks
    hooks['qsort'] = lambda en, s, a, i: s.log('libc', 'qsort', tuple(a))
    n0 = len(rt.st.events())
    r = p.call(name, *vals)
    C.analysed |= p.reached
    if r is None:
        C.undecide('%s: %s' % (what, p.vague))
        return
    if r[0] == 'stop':
        if r[1].kind in ('crash', 'bad', 'cut'):
            C.fail('C24/' + name, '%s: %s' % (what, r[1].val), T.where(cfn))
        else:
            C.ok(what)
        return
    st = rt.st
    bad = list(p.bad)
    for e in st.events()[n0:]:
        if e[0] == 'accessor':
            bad.append('%s is applied to a value of type %s' % (e[1], str(e[2]).lower()))
    tn = r[1][0]
    t = rt.VT['NULL'] if tn == 'null' else rt.VT.get(tn.upper() if tn != 'null' else 'NULL')
    if t is None or not result_fits(rt, ret, t, None):
        if tn == 'null':
            null_result(T, C, sig, 'when the key is missing' if isdict and not fill else 'with %d entries' % fill)
        else:
            bad.append('the result is of type %s, declared %s' % (tn, ret))
    if ret not in (None, 'any', 'void', 'int', 'float', 'bool', 'str') and tn == 'NATIVE':
        # the result must be of the representation which the functions of that type work on
        pass
    rt_left = lost(rt, st)
    if rt_left:
        bad.append('it leaves memory behind (%s)' % ', '.join(sorted(a.name for a in rt_left)))
    if bad:
        C.fail('C24/' + name, '%s: %s' % (what, '; '.join(bad[:3])), T.where(cfn))
    else:
        C.ok(what)


# what scripts are written against
INTERFACE = '''
i64: int_to_i64(int): i64, i64_add_many(i64, ...): i64, i64_mul_many(i64, ...): i64, i64_to_string(i64): str
dict: dict(...): dict, dict_put(dict, any, any): void, dict_exists(dict, any): bool, dict_get(dict, any): any,
 dict_remove(dict, any): void, dict_keys(dict): array_any, dict_values(dict): array_any, dict_clear(dict): void,
 dict_get_index(dict, str): any, dict_set_index(dict, str, any): void,
 dict_str_int(...): dict_str_int, dict_str_int_put(dict_str_int, str, int): void, dict_str_int_exists(dict_str_int, str): bool,
 dict_str_int_get(dict_str_int, str): int, dict_str_int_remove(dict_str_int, str): void, dict_str_int_keys(dict_str_int): array_str,
 dict_str_int_clear(dict_str_int): void
io: fopen(str, str): file, fclose(file): void, fread(file, int): str, fwrite(file, str, ...): void, fseek(file, int): void,
 fsize(file): int, read_file(str): str, write_file(str, str): bool
lib: strlen(str): int, stridx(str, int): int, str_get_index(str, int): int, sget(str, int): int, strchr(str, int): int,
 strcat(str, str, ...): str, substr(str, int, int): str, str_to_int(str): int, int_to_str(int): str, ston(str): float, stoi(str, int): int,
 ntos(...): str, time(): int, srand(int): void, rand(): int, floor(float): float, ceil(float): float, input(...): str,
 printf(str, ...): void, print, get_function_index(str): any, call_function(any, ...): any, exit(int): void,
 bool_to_json, str_to_json, int_to_json, float_to_json, get_executing_line, debug_break
'''


def interface(T, C, L):
    """everything scripts are written against is there under its signature"""
    items = [x.strip() for x in re.findall(r'(\w+(?:\([^)]*\)(?:: \w+)?)?)(?:,|\n|$)', re.sub(r'(?m)^\w+: ', '', INTERFACE))]
    for it in items:
        if it == 'print' and it not in L.by:
            continue
        m = SIG.match(it)
        x = L.by.get(m.group(1))
        va, args = True, None
        if m.group(2) is not None:
            args = [a.strip() for a in m.group(2).split(',') if a.strip()]
            va = '...' in args
            args = [a for a in args if a != '...']
        if x is None:
            C.fail('C24/missing/' + m.group(1), 'the library has no function %s' % m.group(1), T.where('Tiny_BindFunction'))
        elif (x[1], x[2], x[3]) != (args, va, m.group(3)):
            C.fail('C24/signature/' + m.group(1), '%s is bound with another signature: (%s)%s' % (
                it, ', '.join((x[1] or []) + (['...'] if x[2] else [])), ': %s' % x[3] if x[3] else ''), T.where(x[4]) if x[4] in T.funcs else '')
        else:
            C.ok('%s is bound' % it)
    C.count('interface', len(items))
    for t in ('i64', 'array_any', 'array_str', 'dict', 'dict_str_int', 'file'):
        if t not in L.types:
            C.fail('C24/type/' + t, 'the library does not register the type %s' % t, T.where('Tiny_RegisterType'))
        else:
            C.ok()
    for mac in ('array', 'delegate', 'json'):
        if mac not in L.macros:
            C.fail('C24/macro/' + mac, 'the library has no macro %s' % mac, T.where('Tiny_BindMacro'))
        else:
            C.ok()


def run(T, C):
    L = Lib(T)
    interface(T, C, L)
    plain(T, C, L)
    containers(T, C, L)
