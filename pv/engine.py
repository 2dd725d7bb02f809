"""Contract verification-condition generator for LLVM IR (see DESIGN.md section 3).

Values are mathematical integers (z3 Int) in the signed canonical range of their
width, i1 is Bool, pointers are Int addresses.  The heap is a family of maps
field -> (address -> Int) (Burstall/Bornat); loops are summarised by closed
forms in a ghost iteration counter plus inductively checked candidate
invariants; calls are inlined unless they have a contract."""
import re, time, itertools, os, sys
import z3
from ir import *

sys.setrecursionlimit(20000)
Int, IntVal, BoolVal, And, Or, Not, Implies, If, Select, Store = (z3.Int, z3.IntVal, z3.BoolVal, z3.And, z3.Or,
                                                               z3.Not, z3.Implies, z3.If, z3.Select, z3.Store)
I = z3.IntSort()
B = z3.BoolSort()
ARR = z3.ArraySort(I, I)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def is_true(x):
    return z3.is_true(x)


def is_false(x):
    return z3.is_false(x)


SIMP = {}


def simp(x):
    k = x.get_id()
    r = SIMP.get(k)
    if r is None:
        r = z3.simplify(x)
        SIMP[k] = r
        SIMPKEEP.append((x, r))
    return r


SIMPKEEP = []


class FieldPtr:
    """address of a scalar field: (object address term, 'Struct.field')"""
    __slots__ = ('base', 'key', 'fty', 'off')

    def __init__(self, base, key, fty, off):
        self.base, self.key, self.fty, self.off = base, key, fty, off

    def __repr__(self):
        return 'FieldPtr(%s,%s)' % (self.base, self.key)


class MapVal:
    """immutable heap map: base array term + store log"""
    __slots__ = ('base', 'log', 'frames', 'arr', 'hist')

    def __init__(self, base, log=(), frames=()):
        self.base, self.log, self.frames = base, log, frames
        self.arr = None
        self.hist = ()

    def store(self, a, v):
        m = MapVal(self.base, self.log + ((a, v),), self.frames)
        m.hist = self.hist
        return m

    def array(self):
        if self.arr is None:
            x = self.base
            for a, v in self.log:
                x = Store(x, a, v)
            self.arr = x
        return self.arr


class IdxFact:
    """for all lo <= j < hi : fn(j)"""
    __slots__ = ('lo', 'hi', 'fn', 'name', 'cache')

    def __init__(self, lo, hi, fn, name=''):
        self.lo, self.hi, self.fn, self.name = lo, hi, fn, name
        self.cache = {}

    def inst(self, t):
        k = t.get_id()
        if k not in self.cache:
            f = self.fn(t)
            g = []
            if self.lo is not None:
                g.append(self.lo <= t)
            if self.hi is not None:
                g.append(t < self.hi)
            self.cache[k] = (Implies(And(*g), f) if g else f, t)
        return self.cache[k][0]


class MapFact:
    """for all addresses a: fn(a, baseapp) whenever select(base,a) occurs.
    decl: the z3 func decl of the base (constant or function of an index)."""
    __slots__ = ('decl', 'fn', 'name', 'cache')

    def __init__(self, decl, fn, name=''):
        self.decl, self.fn, self.name = decl, fn, name
        self.cache = {}

    def inst(self, base, a):
        k = (base.get_id(), a.get_id())
        if k not in self.cache:
            self.cache[k] = (self.fn(base, a), base, a)
        return self.cache[k][0]


class AppFact:
    """for every ground application f(args): fn(*args)"""
    __slots__ = ('decl', 'fn', 'name', 'cache')

    def __init__(self, decl, fn, name=''):
        self.decl, self.fn, self.name = decl, fn, name
        self.cache = {}

    def inst(self, args):
        k = tuple(a.get_id() for a in args)
        if k not in self.cache:
            self.cache[k] = (self.fn(*args), args)
        return self.cache[k][0]


class State:
    __slots__ = ('maps', 'globs', 'A', 'pc', 'facts', 'idx', 'extents', 'otypes', 'loops', 'ev', 'steps', 'spines', 'ghost', 'pcset', 'measures')

    def __init__(self):
        self.maps = {}
        self.globs = {}
        self.A = None
        self.pc = ()
        self.facts = ()
        self.idx = ()
        self.extents = ()
        self.otypes = {}
        self.loops = ()      # active ghost counters
        self.steps = 0
        self.spines = ()
        self.ghost = {}
        self.pcset = frozenset()
        self.measures = ()

    def fork(self):
        s = State()
        s.maps = dict(self.maps)
        s.globs = dict(self.globs)
        s.A = self.A
        s.pc = self.pc
        s.facts = self.facts
        s.idx = self.idx
        s.extents = self.extents
        s.otypes = dict(self.otypes)
        s.loops = self.loops
        s.steps = self.steps
        s.spines = self.spines
        s.ghost = dict(self.ghost)
        s.pcset = self.pcset
        s.measures = self.measures
        return s

    def assume(self, c):
        if isinstance(c, bool):
            c = BoolVal(c)
        c = simp(c)
        if is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        k = c.get_id()
        if k in self.pcset:
            return
        self.pcset = self.pcset | {k}
        self.pc = self.pc + (c,)

    def fact(self, f):
        self.facts = self.facts + (f,)

    def addidx(self, t):
        t = simp(t)
        for x in self.idx:
            if x.get_id() == t.get_id():
                return
        self.idx = self.idx + (t,)


class Obl:
    __slots__ = ('name', 'state', 'goal', 'kind', 'where', 'result', 'secs', 'model', 'extra', 'skol')

    def __init__(self, name, state, goal, kind='assert', where='', extra=()):
        self.name, self.state, self.goal, self.kind, self.where = name, state, goal, kind, where
        self.result = None
        self.secs = 0
        self.model = None
        self.extra = extra


class Outcome:
    __slots__ = ('kind', 'state', 'val', 'info')

    def __init__(self, kind, state, val=None, info=''):
        self.kind, self.state, self.val, self.info = kind, state, val, info


STATS = {'checks': 0, 'time': 0.0, 'feas': 0, 'feas_time': 0.0}


class Prover:
    def __init__(self, timeout=8000):
        self.timeout = timeout
        self.slowfast = 0
        self.inc = z3.Solver()
        self.inc.set('timeout', 500)
        self.lits = {}
        self.keep = []
        self.cache = {}
        self.deadline = None

    def lit(self, c):
        k = c.get_id()
        l = self.lits.get(k)
        if l is None:
            l = z3.Bool('p!%d' % len(self.lits))
            self.inc.add(Implies(l, c))
            self.lits[k] = l
            self.keep.append(c)
        return l

    def feasible(self, st, extra=()):
        """cheap satisfiability of the path (no quantified facts)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exceeded')
        ex = []
        for e in extra:
            e = simp(e)
            if is_false(e):
                return False
            if not is_true(e):
                ex.append(e)
        key = (st.pcset, tuple(sorted(e.get_id() for e in ex)))
        if key in self.cache:
            return self.cache[key]
        t = time.time()
        if len(self.lits) > 3000:
            self.inc = z3.Solver()
            self.inc.set('timeout', 500)
            self.lits = {}
        r = self.inc.check(*[self.lit(c) for c in st.pc], *[self.lit(c) for c in ex])
        STATS['feas'] += 1
        STATS['feas_time'] += time.time() - t
        res = r != z3.unsat
        self.cache[key] = res
        self.keep.extend(ex)
        return res

    def entails(self, st, goal, deep=False):
        """quick entailment from the path condition only"""
        g = simp(goal)
        if is_true(g):
            return True
        if is_false(g) and not deep:
            return not self.feasible(st)
        return not self.feasible(st, (Not(g),))

    # ---- full proof with fact instantiation -------------------------------
    def saturate(self, facts, formulas, idx, rounds=3, cap=4000):
        """returns list of instances of the quantified facts relevant to formulas"""
        seen_terms = set()
        maps = {}      # decl id -> [MapFact]
        apps = {}
        idxf = []
        for f in facts:
            if isinstance(f, MapFact):
                maps.setdefault(f.decl.get_id(), []).append(f)
            elif isinstance(f, AppFact):
                apps.setdefault(f.decl.get_id(), []).append(f)
            else:
                idxf.append(f)
        out = []
        outids = set()
        idxs = {}
        for t in idx:
            t = simp(t)
            idxs[t.get_id()] = t
        work = list(formulas)
        newidx = list(idxs.values())

        def emit(c):
            c = simp(c)
            if is_true(c):
                return
            k = c.get_id()
            if k in outids:
                return
            outids.add(k)
            out.append(c)
            work.append(c)
            if len(out) > cap:
                raise Budget('too many instances')

        for rnd in range(rounds):
            # 1. terms
            sel = []
            app = []
            stack = [term(x) for x in work]
            work = []
            while stack:
                nd = stack.pop()
                k = nd[0]
                if k in seen_terms:
                    continue
                seen_terms.add(k)
                if nd[1] == 1:
                    sel.append(nd[4])
                elif nd[1] == 2:
                    app.append(nd[2])
                stack.extend(nd[3])
            KEEP.extend(formulas)
            for arr, a in sel:
                # look through stores / ite
                st2 = [arr]
                vis = set()
                while st2:
                    y = st2.pop()
                    if y.get_id() in vis:
                        continue
                    vis.add(y.get_id())
                    kd = y.decl().kind()
                    if kd == z3.Z3_OP_STORE:
                        st2.append(y.arg(0))
                        continue
                    if kd == z3.Z3_OP_ITE:
                        st2.append(y.arg(1))
                        st2.append(y.arg(2))
                        continue
                    for f in maps.get(y.decl().get_id(), ()):
                        emit(f.inst(y, a))
            for x in app:
                for f in apps.get(x.decl().get_id(), ()):
                    emit(f.inst(tuple(x.children())))
                if x.decl().get_id() in IDXDECLS and x.decl().name() not in NOIDX:
                    a = simp(x.arg(x.num_args() - 1))
                    if a.get_id() not in idxs and len(idxs) < 40:
                        idxs[a.get_id()] = a
                        newidx.append(a)
            # 2. index facts
            if rnd == 0:
                todo = list(idxs.values())
            else:
                todo = newidx
            newidx = []
            for t in todo:
                for f in idxf:
                    emit(f.inst(t))
            if not work and not newidx:
                break
        return out

    def core(self, cs):
        """debugging aid: print a minimal inconsistent subset"""
        s = z3.Solver()
        s.set('timeout', 60000)
        s.set('core.minimize', True)
        ps = {}
        for i, c in enumerate(cs):
            ps['p%d' % i] = c
            s.assert_and_track(c, 'p%d' % i)
        r = s.check()
        print('CORE', r)
        if r == z3.unsat:
            for q in s.unsat_core():
                print('   ', q, str(ps[str(q)])[:1500].replace('\n', ' '))

    def prove(self, st, goal, extra=(), idx=(), facts=(), timeout=None, want_model=False, rounds=3):
        g = simp(goal)
        if is_true(g):
            return 'proved', None
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exceeded')
        t0 = time.time()
        base = list(st.pc) + [simp(e) for e in extra]
        neg = Not(g)
        res = None
        model = None
        # stage 0: no facts
        allidx = list(st.idx) + list(idx)
        for i0 in list(st.idx):
            if not (z3.is_app(i0) and i0.decl().name().startswith('it!')):
                continue
            for c in base + [neg]:
                q = c.arg(0) if z3.is_not(c) else None
                if q is not None and z3.is_eq(q) and q.arg(0).sort() == I:
                    d = simp(q.arg(0) - q.arg(1))
                    for cand in (simp(i0 - d), simp(i0 + d)):
                        if not mentions(cand, i0):
                            allidx.append(cand)
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*base)
        s.add(neg)
        STATS['checks'] += 1
        if s.check() == z3.unsat:
            STATS['time'] += time.time() - t0
            return 'proved', None
        try:
            inst = self.saturate(list(st.facts) + list(facts), base + [neg], allidx, rounds=rounds, cap=4000 if rounds <= 3 else 20000)
        except Budget:
            inst = []
            if os.environ.get('PV_INST'):
                print('CAP')
        if os.environ.get('PV_INST') and want_model:
            print('inst', len(inst), 'rounds', rounds)
        tm = timeout or self.timeout
        r = z3.unknown
        nonlin = True if any(nonlinear(c) for c in itertools.chain(base, inst, (neg,))) else None
        # the first configuration decides most queries fastest, but not those with nonlinear arithmetic
        for cfg in ('fast', 'plain', 'default'):
            if cfg != 'default' and (nonlin if nonlin is not None else self.slowfast > 3 and cfg == 'fast'):
                continue
            if cfg == 'default':
                s = z3.Solver()
            else:
                s = z3.SimpleSolver()
                if cfg == 'fast':
                    s.set('auto_config', False)
                    s.set('arith.solver', 2)
                    s.set('case_split', 3)
            s.set('timeout', tm if cfg == 'default' else min(tm, max(1500, tm // 4) if cfg == 'fast' else max(2500, tm // 3)))
            s.add(*base)
            s.add(neg)
            s.add(*inst)
            r = s.check()
            if r != z3.unknown:
                break
            if cfg == 'fast':
                self.slowfast += 1
        if r == z3.unsat and cfg == 'fast':
            self.slowfast = max(0, self.slowfast - 1)
        STATS['checks'] += 1
        if r == z3.unsat and os.environ.get('PV_CORE') and is_false(g):
            self.core(base + inst)
        if r == z3.unsat:
            res = 'proved'
        elif r == z3.sat:
            res = 'failed'
            if want_model:
                model = s.model()
        else:
            res = 'unknown'
        if res == 'failed' and want_model and rounds == 3:
            return self.prove(st, goal, extra, idx, facts, timeout or 25000, want_model, 5)
        if os.environ.get('PV_DUMP') and res != 'proved' and want_model:
            open('/tmp/w/dump.smt2', 'w').write(s.to_smt2())
        STATS['time'] += time.time() - t0
        if os.environ.get('PV_SLOW') and time.time() - t0 > 2:
            import traceback
            print('SLOWP %.1f %s inst=%d goal=%s | %s' % (time.time() - t0, res, len(inst), str(g)[:250].replace('\n', ' '), [(q.name, q.lineno) for q in traceback.extract_stack()[-5:-1]]), flush=True)
        return res, model


TERMS = {}


def term(x):
    """cached node of a term: (id, tag, term, child nodes, (array, address), decl id)  tag 1 = select, 2 = application"""
    k = x.get_id()
    r = TERMS.get(k)
    if r is not None:
        return r
    stack = [x]
    while stack:
        y = stack[-1]
        ky = y.get_id()
        if ky in TERMS:
            stack.pop()
            continue
        ch = y.children()
        todo = [c for c in ch if c.get_id() not in TERMS]
        if todo:
            stack.extend(todo)
            continue
        tag, ex = 0, None
        if z3.is_app(y) and ch:
            kind = y.decl().kind()
            if kind == z3.Z3_OP_SELECT:
                tag, ex = 1, (ch[0], ch[1])
            elif kind == z3.Z3_OP_UNINTERPRETED:
                tag = 2
        TERMS[ky] = (ky, tag, y, tuple(TERMS[c.get_id()] for c in ch), ex, y.decl().get_id() if z3.is_app(y) else -1)
        stack.pop()
    return TERMS[k]


NONLIN = {}
_NL = (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_DIV)


def nonlinear(t):
    """does t contain a product of two unknowns, a division or a remainder"""
    r = NONLIN.get(t.get_id())
    if r is not None:
        return r
    stack = [term(t)]
    while stack:
        y = stack[-1]
        k = y[0]
        if k in NONLIN:
            stack.pop()
            continue
        todo = [c for c in y[3] if c[0] not in NONLIN]
        if todo:
            stack.extend(todo)
            continue
        v = any(NONLIN[c[0]] for c in y[3])
        if not v and z3.is_app(y[2]):
            kd = y[2].decl().kind()
            v = kd in _NL or (kd == z3.Z3_OP_MUL and sum(1 for c in y[3] if not z3.is_int_value(c[2]) and not z3.is_rational_value(c[2])) > 1)
        NONLIN[k] = v
        stack.pop()
    return NONLIN[t.get_id()]


def term_any(t, pred):
    """pred(node) on the distinct subterms of t"""
    st, seen = [term(t)], set()
    while st:
        y = st.pop()
        i = y[0]
        if i in seen:
            continue
        seen.add(i)
        if pred(y):
            return True
        st.extend(y[3])
    return False


def mentions(t, x):
    k = x.get_id()
    st, seen = [term(t)], set()
    while st:
        y = st.pop()
        i = y[0]
        if i == k:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(y[3])
    return False


KEEP = []
IDXDECLS = set()
NOIDX = set()


def demangle(n):
    """short C++ name of a mangled global (best effort)"""
    n = n.lstrip('@')
    m = re.match(r'_Z(?:N(?:K)?(?:L)?|L)?(\d+)', n)
    if not m:
        return n
    k = int(m.group(1))
    st = m.end(1)
    return n[st:st + k]


def effectively_const(M):
    """an internal table that no instruction of its module can write (its address only flows into loads, address
    arithmetic and comparisons) is constant data, declared const or not"""
    cand = [n for n, g in M.globals.items() if g[1] is not None and not g[2] and g[1].kind == 'agg' and n in M.internals]
    if not cand:
        return

    def mentions(op, n):
        if op.kind == 'global':
            return op.v == n
        v = op.v if isinstance(op.v, (list, tuple)) else []
        return any(mentions(x, n) for x in v if isinstance(x, type(op))) or any(
            mentions(y, n) for x in v if isinstance(x, (list, tuple)) for y in x if isinstance(y, type(op)))
    for n in cand:
        ok = not any(mentions(g[1], n) for m, g in M.globals.items() if g[1] is not None and m != n)
        pat = re.compile(re.escape(n) + r'(?![\w.$])')
        for f in M.funcs.values():
            ins = [i for b in f.blocks.values() for i in b]
            if not ok or not any(pat.search(i.text) for i in ins):
                continue
            taint, grew = set(), True
            uses = lambda i: pat.search(i.text) or any(t in taint for t in re.findall(r'%[-\w.$"]+', i.text.split(' = ', 1)[-1]))
            while grew and ok:
                grew = False
                for i in ins:
                    if not uses(i) or i.op in ('load', 'icmp'):
                        continue
                    if i.op in ('getelementptr', 'phi', 'select', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'add', 'sub', 'ashr', 'lshr', 'sdiv', 'udiv'):
                        if i.dst not in taint:
                            taint.add(i.dst)
                            grew = True
                    else:
                        ok = False
                        break
        if ok:
            g = M.globals[n]
            M.globals[n] = (g[0], g[1], True)


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.funcs = {}
        self.short = {}
        self.structs = {}
        self.fieldnames = {}
        self.enums = {}
        self.globals = {}
        for M in modules:
            for n, f in M.funcs.items():
                if not f.internal:
                    self.funcs.setdefault(n, f)
                self.short.setdefault(demangle(n), []).append(f)
            for n, s in M.structs.items():
                n2 = re.sub(r'\.\d+$', '', n)
                if s is not None:
                    self.structs.setdefault(n2, s)
            self.fieldnames.update(M.fieldnames)
            effectively_const(M)
            for n, g in M.globals.items():
                if g[1] is not None:
                    self.globals.setdefault(n, g)
        self.gaddr = {}
        self.gname = {}
        self.gconst = {}
        self.faddr = {}

    def lookup(self, mod, name):
        if name in mod.funcs:
            return mod.funcs[name]
        f = self.funcs.get(name)
        return f

    def by_name(self, name):
        return [f for c in self.short.values() for f in c if f.name == name]

    def by_short(self, short, nargs=None, file=None):
        c = self.short.get(short, [])
        c = [f for f in c if (nargs is None or len(f.params) == nargs) and (file is None or f.module.name == file)]
        u = {}
        for f in c:
            u.setdefault((f.name, f.module.name if f.internal else ''), f)
        return list(u.values())

    def global_addr(self, mod, name):
        key = name
        g = mod.globals.get(name)
        if name.startswith('@.str') or name.startswith('@__') or '@_ZL' in name or '@_ZZL' in name or '@switch.' in name:
            key = mod.name + name
        elif self.globals.get(name) is not None:
            g = self.globals[name]
        if key not in self.gaddr:
            a = -(len(self.gaddr) + 1) * (1 << 20)
            self.gaddr[key] = a
            self.gname[a] = key
            self.gconst[key] = g
        return self.gaddr[key]

    def layout(self, ty):
        """(size, align)"""
        k = ty.kind
        if k == 'int':
            s = max(1, (ty.a + 7) // 8)
            return s, s
        if k == 'ptr':
            return 8, 8
        if k == 'double':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'array':
            s, a = self.layout(ty.b)
            return s * ty.a, a
        if k == 'struct':
            els = self.structs.get(re.sub(r'\.\d+$', '', ty.a)) or self.structs.get(ty.a)
            if els is None:
                raise Unsupported('opaque struct ' + ty.a)
            return self._lay(els)
        if k == 'lit':
            return self._lay(ty.a)
        raise Unsupported('layout ' + repr(ty))

    def _lay(self, els):
        o, al = 0, 1
        for e in els:
            s, a = self.layout(e)
            o = (o + a - 1) // a * a + s
            al = max(al, a)
        return (o + al - 1) // al * al, al

    def offset(self, els, k):
        o = 0
        for i, e in enumerate(els):
            s, a = self.layout(e)
            o = (o + a - 1) // a * a
            if i == k:
                return o
            o += s
        raise Unsupported('offset')

    def struct_els(self, name):
        n = re.sub(r'\.\d+$', '', name)
        r = self.structs.get(n)
        if r is None:
            raise Unsupported('opaque struct ' + name)
        return n, r

    def fieldname(self, sname, k):
        fn = self.fieldnames.get(sname)
        short = sname.replace('struct.', '').replace('class.', '').replace('union.', '')
        if fn and k < len(fn):
            return '%s.%s' % (short, fn[k])
        return '%s.#%d' % (short, k)
