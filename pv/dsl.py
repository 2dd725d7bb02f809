"""Surface syntax for specifications: typed Scheme arguments and behaviours."""
from contract import *


class O:
    """a symbolic Scheme object with the parts its type gives it"""

    def __init__(self, p, **k):
        self.p = p
        self.__dict__.update(k)


def P(x):
    return x.p if isinstance(x, O) else x


class S(Ctx):
    """specification context"""
    expect = 'ret'
    _post = None
    _mods = None
    reg = None

    def any(self, n):
        return O(self.scm(n))

    def typed(self, n, *ts):
        p = self.scm(n)
        self.assume(self.is_(p, *ts))
        return O(p, v=self.value(p))

    def num(self, n):
        return self.typed(n, 'NUM')

    def char(self, n):
        return self.typed(n, 'CHAR')

    def flt(self, n):
        return self.typed(n, 'FLOAT')

    def bool(self, n):
        return self.typed(n, 'BOOL')

    def not_(self, n, *ts):
        p = self.scm(n)
        self.assume(Not(self.is_(p, *ts)))
        return O(p, v=self.value(p))

    def vec(self, n):
        p = self.scm(n)
        ln, e, v = self.vector(p)
        return O(p, n=ln, e=e, v=v)

    def str(self, n, kind='STR'):
        p = self.scm(n)
        self.assume(self.is_(p, kind))
        v = self.value(p)
        st = 'SCM_String' if kind == 'STR' else 'SCM_Symbol'
        d = self.get(st + '.data', v)
        ln = self.get(st + '.len', v)
        m = init0('mem1')
        o = O(p, v=v, d=d, n=ln)
        o.at = lambda j: Select(m, d + j)
        return o

    def symbol(self, n, name):
        """the symbol spelled `name`"""
        o = self.str(n, 'SYM')
        b = name.encode('latin1') + b'\0'
        self.assume(o.n == len(b) - 1)
        for i, x in enumerate(b):
            self.assume(o.at(i) == x)
        self.st.ghost[('cstr', simp(o.d).get_id())] = (b, o.d)
        return o

    # ---- program text / evaluator
    def ast(self, n, *elems, tail=None):
        """a source list object whose leading elements are the given objects; tail: None = ends here,
        a list view = followed by those cells, 'any' = arbitrary rest"""
        p = self.scm(n)
        self.assume(self.is_(p, 'LIST'))
        cells = []
        nxt = None
        cur = self.value(p)
        for i, e in enumerate(elems):
            if i == 0:
                self.assume(cur > 0)
            w = z3.Int('%s_cell%d' % (n, i))
            self.ex.alias[cur.get_id()] = (cur, w)
            self.assume(cur == w, w > 0, w < self.A0)
            cells.append(w)
            d = self.get('SCM_List.data', w)
            self.assume(d == P(e))
            self.ex.alias[d.get_id()] = (d, P(e))
            self.assume(self.get('SCM_List.is_dotted', w) == 0)
            cur = self.get('SCM_List.next', w)
        if tail is None:
            self.ex.alias[cur.get_id()] = (cur, IntVal(0))
            self.assume(cur == 0)
        elif tail != 'any':
            w = tail.W(IntVal(0))
            self.ex.alias[cur.get_id()] = (cur, w)
            self.assume(cur == w)
        return O(p, cells=cells)

    def env(self, n='env'):
        p = z3.Int(n)
        self.st.assume(And(p > 0, p < self.A0))
        return p

    def opaque(self, **names):
        from evalmodel import opaque as oq
        for k, kw in names.items():
            self.ex.builtins[k] = oq(k, **(kw if isinstance(kw, dict) else {}))

    def atcall(self, name, fn, before=None):
        """fn(R, args, k): obligations in the state of every call of `name`, the k-th one"""
        from evalmodel import Rep
        base = self.ex.builtins[name]
        ctx = self

        def h(ex, st, args, ins, f):
            k = IntVal(0)
            for e in st.ghost.get('ev', ()):
                m = sum(1 for x in (e.tmpl if isinstance(e, Rep) else (e,)) if x.name == name)
                k = k + (e.n * m if isinstance(e, Rep) else m)
            snap = st.fork()
            a = tuple(simp(ex.ptrval(x)) if not z3.is_bool(x) else x for x in args)

            class At(Result):
                def __init__(self):
                    self.c, self.r, self.st, self.v, self.ex = ctx, None, snap, None, ex
            ex.obls.append(Obl('at a call of ' + name, snap, (lambda: fn(At(), a, simp(k))), 'atcall', name))
            return base(ex, st, args, ins, f)
        self.ex.builtins[name] = h

    def tailcalls(self, *names):
        """treat a jump back to the start of these functions as a tail call"""
        for f in self.ex.prog.modules:
            for n, g in f.funcs.items():
                if demangle(n) in names:
                    L = g.loops()
                    if L:
                        h = max(L, key=lambda q: len(L[q]))
                        self.ex.tailheads[n] = h

    def nodebug(self):
        """diagnostic output switched off (the --debug command line flag)"""
        self.ex.note_assume('the --debug command line flag is off (its branches only print)')
        mod = [m for m in self.ex.prog.modules if '@debug_enabled' in m.globals][0]
        self.assume(Select(init0('mem1'), IntVal(self.ex.prog.global_addr(mod, '@debug_enabled'))) == 0)

    def sym(self, n):
        return self.str(n, 'SYM')

    def ratio(self, n):
        o = self.typed(n, 'RATIO')
        o.num = self.get('SCM_Rational.numerator', o.v)
        o.den = self.get('SCM_Rational.denominator', o.v)
        return o

    def dbl(self, o):
        """the double a number converts to"""
        z = self.st
        t, v = self.type(P(o)), self.value(P(o))
        q = farith(z, 'fdiv', i2f(z, self.get('SCM_Rational.numerator', v)), i2f(z, self.get('SCM_Rational.denominator', v)))
        return If(t == T['FLOAT'], v, If(t == T['NUM'], i2f(z, v), q))

    def numeric(self, n, *ts):
        return self.typed(n, *(ts or ('NUM', 'FLOAT', 'RATIO')))

    def overflow(self):
        """signed overflow is an obligation, not an assumption"""
        self.ex.ovf = True

    def fits(self, *ts):
        for t in ts:
            self.assume(And(t >= -(1 << 63), t < (1 << 63)))

    def gcd(self, a, b, contract=False):
        """greatest common divisor as a ghost function, with its defining equations"""
        st = self.st
        if not st.ghost.get('gcd'):
            st.ghost['gcd'] = True
            IDXDECLS.add(GCD.get_id())
            NOIDX.add('gcd')

            def ax(x, y):
                g = GCD(x, y)
                return And(Implies(And(y == 0, x >= 0), g == x), Implies(And(x == 0, y >= 0), g == y), Implies(And(x >= 0, y > 0), g == GCD(y, TREM(x, y))),
                           Implies(And(x >= 0, y >= 0), And(g >= 0, Implies(x > 0, And(g >= 1, g <= x, TDIV(x, g) >= 1, TDIV(-x, g) == -TDIV(x, g))), Implies(y > 0, And(g >= 1, g <= y, TDIV(y, g) >= 1, TDIV(-y, g) == -TDIV(y, g))),
                               Implies(And(x > 0, g == 1), TDIV(x, g) == x), Implies(And(y > 0, g == 1), TDIV(y, g) == y))),
                           GCD(x, y) == GCD(y, x))
            st.fact(AppFact(GCD, ax, 'gcd'))

            def cand(ex, x, X, it, s):
                if x.isbool:
                    return
                for y in ex.loopvars:
                    if y is x or y.isbool or y.closed is not None:
                        continue
                    yield 'gcd%d' % y.decl.get_id(), lambda j, y=y: GCD(X(x, j), X(y, j)) == GCD(x.entry, y.entry)
            self.ex.loopcand.append(cand)
        if contract:
            def h(ex, s, args, ins, f):
                if len(args) != 2 or ins.ty.kind != 'int':
                    return NotImplemented
                x, y = [simp(If(t < 0, -t, t)) for t in args]
                ex.note_assume('gcd is used through its own contract (verified as "C:gcd/2")')
                g = GCD(x, y)
                s.assume(And(g >= 0, g < (1 << 63)))
                return [('ret', s, simp(g), '')]
            self.ex.builtins['gcd'] = h
        return GCD(a, b)

    def fold(self, name, init, step, view=None, also=()):
        """ghost fold over an index: f(0) = init, f(k+1) = step(f(k), k); proposed as the value of loop accumulators"""
        f = z3.Function('fold_' + name, I, I)
        IDXDECLS.add(f.get_id())
        self.st.fact(AppFact(f, lambda k: And(Implies(k == 0, f(k) == init), Implies(k >= 1, f(k) == step(f(k - 1), k - 1))), 'fold'))
        self.st.assume(f(IntVal(0)) == init)

        def cand(ex, x, X, it, s):
            if not x.isbool:
                for d in (0, 1, -1):
                    yield 'fold%s%d' % (name, d), lambda j, d=d: (view(X(x, j)) if view else X(x, j)) == f(simp(j + d))
                for k, g in enumerate(also):
                    yield 'fold%s+%d' % (name, k), lambda j, g=g: g(X(x, j))
        self.ex.loopcand.append(cand)
        return f

    def args_list(self, n='args', minlen=0, typ=None):
        """an argument list of any length"""
        L = self.list_cells(n, minlen=minlen) if minlen else None
        if typ:
            self.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), self.type0(L.D(t), *typ)), 'argtypes'))
        self.args = [L.W(IntVal(0))]
        return L

    def type0(self, p, *ts):
        a = Select(init0('SCM.type'), p)
        return Or(*[a == T[t] for t in ts])

    def value0(self, p):
        return Select(init0('SCM.value'), p)

    def lst(self, n, **k):
        p = self.scm(n)
        L = self.list(p, n, **k)
        return O(p, L=L, n=L.n, D=L.D, W=L.W)

    def nil(self, n='nil'):
        return self.typed(n, 'NIL')

    def pair(self, n):
        """any non-empty list cell object (tail arbitrary)"""
        o = self.typed(n, 'LIST')
        return o

    def call(self, *objs):
        objs = [P(o) for o in objs]
        if self.reg is None or self.reg[4] != 'scm_define_vararg_function':
            self.args = objs
        else:
            self.args = [self.arglist(objs)]

    def err(self, post=None):
        """every path leaves by an error or a jump; post(R): what holds there"""
        self.expect = 'err'
        self._errpost = post

    def post(self, fn):
        self._post = fn

    def modifies(self, fn):
        self._mods = fn


class Beh:
    def __init__(self, fn, name, spec, opts=None, thorough=False, about=''):
        self.fn, self.name, self.spec, self.opts, self.thorough, self.about = fn, name, spec, opts or {}, thorough, about

    @property
    def key(self):
        return '%s / %s' % (self.fn, self.name)


class Specs:
    def __init__(self):
        self.behs = []

    def __call__(self, fn, name, **opts):
        def deco(spec):
            th = opts.pop('thorough', False)
            self.behs.append(Beh(fn, name, spec, opts, th))
            return spec
        return deco

    def add(self, fn, name, spec, **opts):
        th = opts.pop('thorough', False)
        self.behs.append(Beh(fn, name, spec, opts, th))


def resolve(prog, reg, fn):
    """'vector-ref' (registered Scheme name) or 'C:func/nargs[@file]'"""
    if fn.startswith('C:'):
        s = fn[2:]
        file = None
        if '@' in s:
            s, file = s.split('@')
        n = None
        if '/' in s:
            s, n = s.split('/')
            n = int(n)
        c = prog.by_short(s, n, file)
        if len(c) != 1:
            raise Unsupported('cannot resolve %s: %d candidates' % (fn, len(c)))
        return c[0], None
    r = reg.get(fn)
    if r is None or r[0] is None:
        raise Unsupported('no registered procedure ' + fn)
    return r[0], r


def run_beh(prog, reg, beh, timeout=6000, unroll=None, budget=60):
    try:
        f, r = resolve(prog, reg, beh.fn)
    except Unsupported as e:
        V = Verdict(beh)
        V.status, V.reason = 'undecided', str(e)
        return V
    b = Behaviour(f, beh.name, None, None, None, opts=beh.opts)

    def pre(c):
        c.__class__ = S
        c.reg = r
        beh.spec(c)
        b.expect = c.expect
        b.post = (lambda c, R: c._post(R)) if c._post else None
        b.mods = (lambda c, R: c._mods(R) if callable(c._mods) else c._mods) if c._mods is not None else None
    b.pre = pre
    return verify(prog, f, b, None, timeout=timeout, unroll=unroll, deadline=time.time() + budget)
