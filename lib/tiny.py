"""Front end shared by the checks: builds the IR of /repo's current working tree and gives
access to it with the names the source uses."""
import glob
import hashlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ir            # noqa: E402
import eng as E      # noqa: E402
import anchor        # noqa: E402
from eng import Engine, State, Raise, Forks, INLINE, Lin, AggV, Cond, A, add, mul, fresh, op  # noqa: E402

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TINY_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'


class BuildError(Exception):
    pass


def sources():
    src = sorted(glob.glob(os.path.join(REPO, 'tiny', 'src', '*.c')))
    return src


def build_ir(extra=()):
    """IR text of the whole library (debug info, no inlining, locals promoted to registers)"""
    tmp = tempfile.mkdtemp(prefix='tinyir')
    try:
        procs = []
        lls = []
        for f in sources():
            o = os.path.join(tmp, os.path.basename(f)[:-2] + '.ll')
            lls.append(o)
            procs.append((f, subprocess.Popen(
                [CLANG, '-std=gnu11', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S',
                 '-emit-llvm', '-D_GNU_SOURCE', '-w', '-I' + os.path.join(REPO, 'tiny', 'include')] + list(extra) +
                [f, '-o', o], stderr=subprocess.PIPE, text=True)))
        for f, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise BuildError('clang failed on %s:\n%s' % (f, err))
        a = os.path.join(tmp, 'all.ll')
        b = os.path.join(tmp, 'all2.ll')
        subprocess.run([LINK, '-S'] + lls + ['-o', a], check=True, stderr=subprocess.DEVNULL)
        subprocess.run([OPT, '-S', '-passes=sroa', a, '-o', b], check=True, stderr=subprocess.DEVNULL)
        with open(b) as fh:
            return fh.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Tiny:
    """the analysed program"""

    def __init__(self):
        text = build_ir()
        self.m = ir.Module(text)
        data = anchor.data_renames(self.m)
        self.renamed = dict(anchor.renames(self.m, data), **data['globals'])
        if self.renamed:
            self.m = ir.Module(anchor.apply(text, self.renamed))
        anchor.install(self.m, data)
        self.funcs = {n: f for n, f in self.m.funcs.items() if not f.decl}
        self.fnptrs = self._address_taken()

    def _address_taken(self):
        out = {}

        def visit(v, where):
            if isinstance(v, ir.GRef) and v.name in self.m.funcs:
                out.setdefault(v.name, []).append(where)
            elif isinstance(v, ir.Agg):
                for _, x in v.vals:
                    visit(x, where)
        for g in self.m.globals.values():
            visit(g.init, '@' + g.name)
        for f in self.funcs.values():
            for i in f.insts():
                if i.op == 'call':
                    for x in i.x[1:]:
                        visit(x, f.name)
                elif i.op == 'phi':
                    for x in i.a.values():
                        visit(x, f.name)
                elif i.x:
                    for x in i.x:
                        visit(x, f.name)
        return out

    # ------------------------------------------------ layout
    def off(self, struct, member):
        s = self.m.struct(struct)
        if s is None or member not in s['members']:
            raise Missing('%s.%s' % (struct, member))
        return s['members'][member][0]

    def fsize(self, struct, member):
        s = self.m.struct(struct)
        if s is None or member not in s['members']:
            raise Missing('%s.%s' % (struct, member))
        return s['members'][member][1]

    def size(self, struct):
        s = self.m.struct(struct)
        if s is None:
            raise Missing(struct)
        return s['size']

    def enum(self, n):
        try:
            return self.m.enum(n)
        except KeyError:
            raise Missing(n)

    def fn(self, name):
        if name not in self.funcs:
            raise Missing(name)
        return name

    def where(self, fn, inst=None):
        f = self.m.fn_file(fn)
        l = self.m.line(inst) if inst is not None else self.m.fn_line(fn)
        return '%s:%s (%s)' % (f.replace(REPO + '/', ''), l, fn)

    def loc(self, w):
        """where-list of an engine result -> text"""
        return ' <- '.join('%s:%s' % (n, l) for n, l in reversed(w or []))

    # ------------------------------------------------ state helpers
    def get(self, st, p, struct, member):
        return st.load(p, self.fsize(struct, member), self.off(struct, member))

    def set(self, st, p, struct, member, v):
        st.store(p, self.fsize(struct, member), v, self.off(struct, member))

    def obj(self, st, struct, name, dflt='init', **fields):
        p = st.new_obj(name, dflt)
        p.t[0][0].meta['size'] = self.size(struct)
        for k, v in fields.items():
            self.set(st, p, struct, k.replace('__', '.'), v)
        return p

    def cstr(self, st, s, name=None):
        if isinstance(s, str):
            s = s.encode()
        p = st.new_obj(name or repr(s.decode('latin1')), ('bytes', s + b'\0'))
        return p

    def stretchy(self, st, name, items, isize, count=None, cap=1 << 30, dflt='undef'):
        """a stb stretchy buffer with the given item values (each a list of (off,size,val))"""
        base = st.new_obj(name, dflt)
        p = add(base, 16)      # room for the header
        st.store(p, 4, cap, -8)
        st.store(p, 4, len(items) if count is None else count, -4)
        for k, it in enumerate(items):
            for o, s, v in it:
                st.store(p, s, v, k * isize + o)
        return p

    def sbcount(self, st, p):
        if type(p) is int:
            return 0
        return st.load(p, 4, -4)

    # ------------------------------------------------ call graph
    def callees(self, fn):
        """direct callees, and functions whose address fn passes on"""
        out = set()
        for i in self.m.funcs[fn].calls():
            c = i.x[0]
            if isinstance(c, ir.GRef):
                out.add(c.name)
        return out

    def reach(self, roots):
        seen = set()
        work = list(roots)
        while work:
            f = work.pop()
            if f in seen or f not in self.m.funcs:
                continue
            seen.add(f)
            if not self.m.funcs[f].decl:
                work.extend(self.callees(f))
        return seen


class Missing(Exception):
    """a name the rule is anchored on is not in the program"""


# ---------------------------------------------------------------- reporting
class Check:
    """collects obligations and violations of one property and writes its evidence"""

    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.samples = []
        self.notes = []
        self.counts = {}
        self.analysed = set()
        self.known = load_known(pid)
        self.known_hit = []

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def fail(self, key, what, where='', detail=None):
        """an obligation that does not hold: key identifies the construct"""
        self.obligations += 1
        for k in self.known:
            if k['key'] == key:
                self.known_hit.append((key, what))
                return
        self.violations.append({'key': key, 'what': what, 'where': where, 'detail': detail})

    def undecide(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def note(self, s):
        self.notes.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def together(self, jobs):
        """run the jobs (functions of a Check) in processes of their own and take over what they found"""
        _JOBS[:] = [(self.pid, j) for j in jobs]
        n = int(os.environ.get('TINY_JOBS') or min(8, os.cpu_count() or 1))
        with multiprocessing.get_context('fork').Pool(n) as p:
            for c in p.map(_job, range(len(jobs)), 1):
                self.obligations += c.obligations
                self.discharged += c.discharged
                self.undecided += c.undecided
                self.violations += c.violations
                self.samples = (self.samples + c.samples)[:12]
                self.notes += c.notes
                self.analysed |= c.analysed
                self.known_hit += c.known_hit
                for k, x in c.counts.items():
                    self.count(k, x)

    def finish(self, rule, extra=None):
        cov = {'obligations': self.obligations, 'discharged': self.discharged, 'rule': rule,
               'undecided': len(self.undecided), 'undecided_list': self.undecided[:20],
               'functions_analysed': sorted(self.analysed), 'samples': self.samples,
               'checker_cmd': 'checks/run.py %s' % self.pid,
               'trusted_base': ['clang 18 front end and sroa pass', 'lib/ir.py', 'lib/eng.py', 'checks/%s' % self.pid],
               'explanation': rule}
        cov.update(self.counts)
        if extra:
            cov.update(extra)
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.violations)}
        d = os.environ.get('TINY_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        for key, what in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        rp = os.path.join(d, self.pid + '.violations.json')
        if self.violations:
            with open(rp, 'w') as f:
                json.dump(self.violations, f, indent=1, default=repr)
            ev['coverage']['violating_constructs'] = self.violations[:20]
        elif os.path.exists(rp):
            os.remove(rp)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        for v in self.violations[:25]:
            print('  %s: %s%s' % (v['key'], v['what'], ' at ' + v['where'] if v['where'] else ''))
            if v['detail']:
                print('      ' + str(v['detail'])[:600])
        for u in self.undecided[:int(os.environ.get("SHOW","10"))]:
            print('  undecided: ' + u)
        print('%s: %d obligations, %d discharged, %d violated, %d undecided (%.1fs)' % (
            self.pid, self.obligations, self.discharged, len(self.violations), len(self.undecided),
            time.time() - self.t0))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


_JOBS = []


def _job(k):
    pid, f = _JOBS[k]
    c = Check(pid)
    try:
        f(c)
    except Missing as e:
        c.undecide('the rule is anchored on %s, which the program does not have' % e)
    except Exception:
        c.undecide(traceback.format_exc())
    for v in c.violations:
        v['detail'] = v['detail'] and str(v['detail'])
    return c


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]
