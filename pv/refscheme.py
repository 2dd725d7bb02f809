"""Reference evaluator for a core of Scheme and a generator of random programs over it.
Oracle of the bounded conformance runs (never counted as proof)."""
import sys
from conform import Sym, w, src

sys.setrecursionlimit(20000)
S = Sym


class SchemeError(Exception):
    pass


class Fuel(Exception):
    pass


class Thrown(SchemeError):
    def __init__(self, key, args):
        self.key, self.args_ = key, args


class Values(list):
    pass


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, up):
        self.d, self.up = {}, up

    def find(self, s):
        e = self
        while e is not None:
            if s in e.d:
                return e
            e = e.up
        return None


class Clo:
    def __init__(self, params, rest, body, env):
        self.params, self.rest, self.body, self.env = params, rest, body, env


class Cont(Exception):
    def __init__(self):
        self.v = None


class Promise:
    def __init__(self, th):
        self.th, self.done, self.v = th, False, None


class Macro:
    def __init__(self, f):
        self.f = f


class Rest(list):
    """dotted parameter list: (a b . r) as Rest([a, b, r])"""


UNSPEC = None


def truthy(v):
    return v is not False


def num(*a):
    for x in a:
        if isinstance(x, bool) or not isinstance(x, int):
            raise SchemeError('num')
    return a


def lst(x):
    if not isinstance(x, list) or isinstance(x, Values):
        raise SchemeError('list')
    return x


def eqv(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return str(a) == str(b)
    if isinstance(a, list) and isinstance(b, list):
        return a is b or (not a and not b)
    return a is b


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return eqv(a, b)


class Interp:
    def __init__(self, fuel=20000):
        self.g = Env(None)
        self.trace = []
        self.fuel = fuel
        self.winds = []
        B = self.g.d

        def fn(name, lo, hi=None):
            def deco(f):
                f.arity = (lo, lo if hi is None else hi)
                f.nm = name
                B[S(name)] = f
                return f
            return deco
        inf = 10 ** 9

        @fn('+', 0, inf)
        def _(*a):
            return sum(num(*a))

        @fn('*', 0, inf)
        def _(*a):
            r = 1
            for x in num(*a):
                r *= x
            if abs(r) > 1 << 62:
                raise Fuel()
            return r

        @fn('-', 1, inf)
        def _(*a):
            num(*a)
            return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
        for nm, op in (('<', lambda x, y: x < y), ('=', lambda x, y: x == y), ('>', lambda x, y: x > y)):
            def mk(op):
                def f(*a):
                    num(*a)
                    return all(op(x, y) for x, y in zip(a, a[1:]))
                return f
            fn(nm, 2, inf)(mk(op))
        fn('list', 0, inf)(lambda *a: list(a))
        fn('cons', 2)(lambda a, b: [a] + lst(b))

        @fn('car', 1)
        def _(a):
            if not lst(a):
                raise SchemeError('car')
            return a[0]

        @fn('cdr', 1)
        def _(a):
            if not lst(a):
                raise SchemeError('cdr')
            return a[1:]
        def memv(a, b):
            for i, x in enumerate(lst(b)):
                if isinstance(x, (int, float)) and not isinstance(x, bool) and isinstance(a, (int, float)) and not isinstance(a, bool) and x == a:
                    return b[i:]
            return False
        fn('memv', 2)(memv)
        fn('null?', 1)(lambda a: isinstance(a, list) and a == [])
        fn('pair?', 1)(lambda a: isinstance(a, list) and a != [])
        fn('not', 1)(lambda a: a is False)
        fn('zero?', 1)(lambda a: num(a)[0] == 0)
        fn('length', 1)(lambda a: len(lst(a)))
        fn('reverse', 1)(lambda a: lst(a)[::-1])
        fn('append', 2)(lambda a, b: lst(a) + lst(b))
        fn('procedure?', 1)(lambda a: isinstance(a, Clo) or callable(a))

        @fn('T', 2)
        def _(k, v):
            self.trace.append(k)
            return v

        @fn('force', 1)
        def _(p):
            if not isinstance(p, Promise):
                raise SchemeError('force')
            if p.done:
                return p.v
            v = p.th()
            if not p.done:
                p.done, p.v = True, v
            return p.v

        @fn('values', 0, inf)
        def _(*a):
            return a[0] if len(a) == 1 else Values(a)

        @fn('catch', 3)
        def _(key, th, h):
            n = len(self.winds)
            try:
                return self.apply(th, [])
            except SchemeError as e:
                k = e.key if isinstance(e, Thrown) else S('misc')
                if key is not True and not eqv(key, k):
                    raise
                a = e.args_ if isinstance(e, Thrown) else []
                return self.apply(h, [k] + a)

        @fn('throw', 1, inf)
        def _(k, *a):
            raise Thrown(k, list(a))

        @fn('error', 0, inf)
        def _(*a):
            raise SchemeError('error')

    # procedures with access to the interpreter
    def sp_map(self, f, *ls):
        if not ls:
            raise SchemeError('map')
        for l in ls:
            lst(l)
        return [self.apply(f, list(t)) for t in zip(*ls)]

    def sp_foreach(self, f, *ls):
        self.sp_map(f, *ls)
        return UNSPEC

    def sp_apply(self, f, *a):
        if not a:
            raise SchemeError('apply')
        return self.apply(f, list(a[:-1]) + lst(a[-1]))

    def sp_cwv(self, p, c):
        v = self.apply(p, [])
        return self.apply(c, list(v) if isinstance(v, Values) else [v])

    def sp_dw(self, a, t, b):
        self.apply(a, [])
        try:
            v = self.apply(t, [])
        except (Cont, SchemeError):
            self.apply(b, [])
            raise
        self.apply(b, [])
        return v

    def sp_callcc(self, f):
        k = Cont()

        def kf(*a):
            k.v = a[0] if a else []
            raise k
        kf.arity = (0, 10 ** 9)
        try:
            return self.apply(f, [kf])
        except Cont as e:
            if e is not k:
                raise
            return k.v
    FORMS = {'map': sp_map, 'map-in-order': sp_map, 'for-each': sp_foreach, 'apply': sp_apply, 'call-with-values': sp_cwv, 'dynamic-wind': sp_dw, 'call/cc': sp_callcc}

    def apply(self, f, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        if isinstance(f, Clo):
            e = Env(f.env)
            if len(args) < len(f.params) or (f.rest is None and len(args) > len(f.params)):
                raise SchemeError('arity')
            for p, a in zip(f.params, args):
                e.d[p] = a
            if f.rest is not None:
                e.d[f.rest] = list(args[len(f.params):])
            return self.body(f.body, e)
        if callable(f):
            lo, hi = f.arity
            if not lo <= len(args) <= hi:
                raise SchemeError('arity')
            return f(*args)
        raise SchemeError('apply')

    def body(self, b, e):
        v = UNSPEC
        for x in b:
            v = self.ev(x, e)
        return v

    def lam(self, ps, body, e):
        if isinstance(ps, Sym):
            return Clo([], ps, body, e)
        if isinstance(ps, Rest):
            return Clo(list(ps[:-1]), ps[-1], body, e)
        return Clo(list(ps), None, body, e)

    def ev(self, x, e):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        if isinstance(x, Sym):
            f = e.find(x)
            if f is None:
                raise SchemeError('unbound')
            return f.d[x]
        if not isinstance(x, list):
            return x
        if not x:
            return x
        h = x[0]
        if isinstance(h, Sym):
            fr = e.find(h)
            if fr is not None and isinstance(fr.d[h], Macro):
                return self.ev(self.apply(fr.d[h].f, x[1:]), e)
            m = getattr(self, 'f_' + MANGLE.get(h, h), None)
            if m is not None:
                return m(x, e)
            if h in self.FORMS and fr is None:
                a = [self.ev(y, e) for y in x[1:]]
                return self.special(h, a)
        f = self.ev(h, e)
        if not isinstance(f, Clo) and not callable(f) or isinstance(f, Clo) and (len(x) - 1 < len(f.params) or f.rest is None and len(x) - 1 > len(f.params)):
            if any(isinstance(y, (list, Sym)) for y in x[1:]):
                raise Fuel()     # whether the operands are evaluated before the error is unspecified
        a = [self.ev(y, e) for y in x[1:]]
        return self.apply(f, a)

    def special(self, h, a):
        n = {'map': (1, 99), 'map-in-order': (1, 99), 'for-each': (1, 99), 'apply': (1, 99), 'call-with-values': (2, 2), 'dynamic-wind': (3, 3), 'call/cc': (1, 1)}[h]
        if not n[0] <= len(a) <= n[1]:
            raise SchemeError('arity')
        return self.FORMS[h](self, *a)

    def f_quote(self, x, e):
        return x[1]

    def f_if(self, x, e):
        if truthy(self.ev(x[1], e)):
            return self.ev(x[2], e)
        return self.ev(x[3], e) if len(x) > 3 else UNSPEC

    def f_and(self, x, e):
        v = True
        for y in x[1:]:
            v = self.ev(y, e)
            if v is False:
                return v
        return v

    def f_or(self, x, e):
        v = False
        for y in x[1:]:
            v = self.ev(y, e)
            if v is not False:
                return v
        return v

    def f_cond(self, x, e):
        for c in x[1:]:
            if c[0] == 'else':
                return self.body(c[1:], e)
            v = self.ev(c[0], e)
            if truthy(v):
                if len(c) == 1:
                    return v
                if c[1] == '=>':
                    return self.apply(self.ev(c[2], e), [v])
                return self.body(c[1:], e)
        return UNSPEC

    def f_case(self, x, e):
        k = self.ev(x[1], e)
        for c in x[2:]:
            if c[0] == 'else' or any(eqv(k, d) for d in c[0]):
                return self.body(c[1:], e)
        return False

    def f_begin(self, x, e):
        return self.body(x[1:], e)

    def f_lambda(self, x, e):
        return self.lam(x[1], x[2:], e)

    def f_define(self, x, e):
        if isinstance(x[1], list):
            e.d[x[1][0]] = self.lam(Rest(x[1][1:]) if isinstance(x[1], Rest) else x[1][1:], x[2:], e)
        else:
            e.d[x[1]] = self.ev(x[2], e)
        return UNSPEC

    def f_set(self, x, e):
        v = self.ev(x[2], e)
        f = e.find(x[1])
        (f or e).d[x[1]] = v
        return UNSPEC

    def f_let(self, x, e):
        if isinstance(x[1], Sym):
            a = [self.ev(b[1], e) for b in x[2]]
            n = Env(e)
            f = self.lam([b[0] for b in x[2]], x[3:], n)
            n.d[x[1]] = f
            return self.apply(f, a)
        a = [self.ev(b[1], e) for b in x[1]]
        return self.apply(self.lam([b[0] for b in x[1]], x[2:], e), a)

    def f_letstar(self, x, e):
        n = Env(e)
        for b in x[1]:
            m = Env(n)
            m.d[b[0]] = self.ev(b[1], n)
            n = m
        return self.body(x[2:], Env(n))

    def f_letrec(self, x, e):
        n = Env(e)
        for b in x[1]:
            n.d[b[0]] = False
        for b in x[1]:
            n.d[b[0]] = self.ev(b[1], n)
        return self.body(x[2:], n)

    def f_do(self, x, e):
        n = Env(e)
        vals = [self.ev(b[1], e) for b in x[1]]
        for b, v in zip(x[1], vals):
            n.d[b[0]] = v
        while not truthy(self.ev(x[2][0], n)):
            for y in x[3:]:
                self.ev(y, n)
            vs = [self.ev(b[2], n) if len(b) > 2 else n.d[b[0]] for b in x[1]]
            n = Env(e)
            for b, v in zip(x[1], vs):
                n.d[b[0]] = v
        return self.body(x[2][1:], n)

    def f_delay(self, x, e):
        return Promise(lambda: self.ev(x[1], e))

    def f_define_macro(self, x, e):
        s = x[1]
        e.d[s[0]] = Macro(self.lam(Rest(s[1:]) if isinstance(s, Rest) else s[1:], x[2:], e))
        return UNSPEC

    def f_quasiquote(self, x, e):
        return self.qq(x[1], e, 1)

    def qq(self, x, e, d):
        if not isinstance(x, list) or not x:
            return x
        if x[0] == 'unquote':
            return self.ev(x[1], e) if d == 1 else [x[0], self.qq(x[1], e, d - 1)]
        if x[0] == 'quasiquote':
            return [x[0], self.qq(x[1], e, d + 1)]
        out = []
        for y in x:
            if isinstance(y, list) and y and y[0] == 'unquote-splicing' and d == 1:
                out += lst(self.ev(y[1], e))
            else:
                out.append(self.qq(y, e, d))
        return out


MANGLE = {'set!': 'set', 'let*': 'letstar', 'define-macro': 'define_macro'}
for _r in ('body', 'lam'):
    pass


def psrc(x):
    """program text"""
    if isinstance(x, Rest):
        if len(x) == 1:
            return psrc(x[0])
        return '(' + ' '.join(psrc(y) for y in x[:-1]) + ' . ' + psrc(x[-1]) + ')'
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'quote':
            return "'" + psrc(x[1])
        return '(' + ' '.join(psrc(y) for y in x) + ')'
    return src(x)


PRE = "(define tr '())\n(define (T k v) (set! tr (cons k tr)) v)\n(define (run th) (set! tr '()) (let ((v (th))) (list v (reverse tr))))"


def wv(v):
    if isinstance(v, Clo) or callable(v) or isinstance(v, (Values, Promise)) or v is None:
        raise Fuel()
    if isinstance(v, list):
        for y in v:
            wv(y)
    return w(v)


def expect(x, fuel=6000):
    """expected text of (run (lambda () x)), or None when the program is outside the oracle"""
    it = Interp(fuel)
    try:
        v = it.ev(x, Env(it.g))
        r = '(%s %s)' % (wv(v), w(it.trace))
    except SchemeError:
        return 'ERR'
    except (Fuel, RecursionError):
        return None
    except Cont:
        return None
    if it.fuel < 0 or len(r) > 1500:
        return None
    return r


def big(v):
    if isinstance(v, list):
        return any(big(x) for x in v)
    return isinstance(v, int) and abs(v) >= (1 << 60)


class Gen:
    """random programs: expressions of integer value over the variables in scope"""

    def __init__(self, rng, weights=None, names=None):
        self.r = rng
        self.k = 0
        self.w = dict(lit=3, var=6, add=4, trace=3, iff=3, let=4, letstar=2, letrec=2, lam=3, named=2, do=2, begin=3, cond=2, case=1, andor=2, call=4, apply=1, mapp=1, foreach=1, cwv=0, delay=1, catch=1, inner=3, rest=2, ccc=0, err=0, dw=0, macro=0, closure=2, shadow=0)
        if weights:
            self.w.update(weights)
        self.names = [S(n) for n in (names or ['x', 'y', 'z', 'u', 'abs', 'v'])]

    def kk(self):
        self.k += 1
        return self.k

    # scope: dict name -> ('int',) or ('proc', n, rest)
    def ivars(self, sc):
        return [n for n, t in sc.items() if t[0] == 'int']

    def procs(self, sc):
        return [(n, t) for n, t in sc.items() if t[0] == 'proc']

    def name(self):
        return self.r.choice(self.names)

    def pname(self):
        return S(self.r.choice(['f', 'g', 'h', 'max']))

    def test(self, d, sc):
        r = self.r.random()
        if r < 0.15:
            return self.r.choice([True, False, 0, [S('quote'), []], S('tr') if False else True])
        if r < 0.3:
            return [S('not'), self.test(d - 1, sc)] if d > 0 else False
        return [S(self.r.choice(['<', '=', '>'])), self.exp(d - 1, sc), self.exp(d - 1, sc)]

    def lits(self):
        return self.r.choice([0, 1, 2, 3, 5, -1, 7, 10])

    def effect(self, d, sc):
        """an expression run for effect"""
        iv = self.ivars(sc)
        if iv and self.r.random() < 0.6:
            return [S('set!'), self.r.choice(iv), self.exp(d - 1, sc)]
        return [S('T'), self.kk(), self.exp(d - 1, sc)]

    def body(self, d, sc, defs=True):
        """a list of expressions; definitions first"""
        out = []
        sc = dict(sc)
        if defs and d > 0 and self.r.random() < 0.35:
            for _ in range(self.r.randint(1, 2)):
                if self.r.random() < 0.5:
                    n = self.name()
                    s2 = {k: v for k, v in sc.items() if k != n}
                    out.append([S('define'), n, self.exp(d - 1, s2)])
                    sc[n] = ('int',)
                else:
                    n = self.pname()
                    s2 = {k: v for k, v in sc.items() if k != n}
                    ps, s3, t = self.params(s2)
                    out.append([S('define'), Rest([n] + list(ps)) if isinstance(ps, Rest) else [n] + ps] + self.body(d - 1, s3, False))
                    sc[n] = t
        for _ in range(self.r.choice([0, 0, 0, 1, 2])):
            out.append(self.effect(d, sc))
        out.append(self.exp(d - 1, sc))
        return out

    def params(self, sc):
        n = self.r.choice([0, 1, 1, 2, 2, 3])
        n = min(n, len(self.names))
        ns = self.r.sample(self.names, n)
        s = dict(sc)
        for x in ns:
            s[x] = ('int',)
        if self.r.random() < 0.15 * (self.w['rest'] > 0):
            rn = S('rest')
            s[rn] = ('list',)
            return Rest(ns + [rn]), s, ('proc', n, True)
        return list(ns), s, ('proc', n, False)

    def args(self, t, d, sc):
        n = t[1] + (self.r.choice([0, 1, 2]) if t[2] else 0)
        if self.w['err'] and self.r.random() < 0.04 * self.w['err']:
            # whether the operands are evaluated before the error is not specified: literals
            return [self.lits() for _ in range(max(0, n + self.r.choice([-1, 1])))]
        return [self.exp(d - 1, sc) for _ in range(n)]

    def lamx(self, d, sc):
        ps, s, t = self.params(sc)
        return [S('lambda'), ps] + self.body(d, s), t

    def exp(self, d, sc):
        if d <= 0:
            iv = self.ivars(sc)
            return self.r.choice(iv) if iv and self.r.random() < 0.7 else self.lits()
        ks = list(self.w)
        for _ in range(20):
            k = self.r.choices(ks, [self.w[x] for x in ks])[0]
            e = getattr(self, 'g_' + k)(d, sc)
            if e is not None:
                return e
        return self.lits()

    def g_lit(self, d, sc):
        return self.lits()

    def g_var(self, d, sc):
        iv = self.ivars(sc)
        return self.r.choice(iv) if iv else None

    def g_add(self, d, sc):
        return [S(self.r.choice(['+', '-', '+', '*']))] + [self.exp(d - 1, sc) for _ in range(self.r.choice([2, 2, 3]))]

    def g_trace(self, d, sc):
        return [S('T'), self.kk(), self.exp(d - 1, sc)]

    def g_iff(self, d, sc):
        return [S('if'), self.test(d - 1, sc), self.exp(d - 1, sc), self.exp(d - 1, sc)]

    def g_andor(self, d, sc):
        k = self.r.choice(['and', 'or'])
        return [S(k)] + ([self.test(d - 1, sc) for _ in range(self.r.choice([0, 1, 2]))] if k == 'and' and False else []) + [self.exp(d - 1, sc) for _ in range(self.r.choice([1, 2, 3]))]

    def g_cond(self, d, sc):
        cl = []
        for _ in range(self.r.randint(1, 3)):
            r = self.r.random()
            if r < 0.15:
                cl.append([self.exp(d - 1, sc)])
            elif r < 0.3:
                cl.append([self.exp(d - 1, sc), S('=>'), [S('lambda'), [S('x')]] + self.body(d - 1, dict(sc, **{S('x'): ('int',)}))])
            else:
                cl.append([self.test(d - 1, sc)] + self.body(d - 1, sc, False))
        return [S('cond')] + cl + [[S('else')] + self.body(d - 1, sc, False)]

    def g_case(self, d, sc):
        return [S('case'), self.exp(d - 1, sc), [[0, 1]] + self.body(d - 1, sc, False), [[2, 3, 5]] + self.body(d - 1, sc, False), [S('else')] + self.body(d - 1, sc, False)]

    def g_begin(self, d, sc):
        return [S('begin')] + [self.effect(d - 1, sc) for _ in range(self.r.choice([1, 1, 2]))] + [self.exp(d - 1, sc)]

    def binds(self, d, sc, n):
        n = min(n, len(self.names))
        ns = self.r.sample(self.names, n)
        return ns

    def g_let(self, d, sc):
        ns = self.binds(d, sc, self.r.choice([0, 1, 1, 2, 3]))
        bs = []
        s = dict(sc)
        for n in ns:
            if self.r.random() < 0.25:
                l, t = self.lamx(d - 1, sc)
                f = self.pname()
                if any(b[0] == f for b in bs):
                    continue
                bs.append([f, l])
                s[f] = t
            else:
                bs.append([n, self.exp(d - 1, sc)])
                s[n] = ('int',)
        return [S('let'), bs] + self.body(d, s)

    def g_letstar(self, d, sc):
        bs = []
        s = dict(sc)
        for _ in range(self.r.choice([0, 1, 2, 3])):
            n = self.name()
            bs.append([n, self.exp(d - 1, s)])
            s[n] = ('int',)
        return [S('let*'), bs] + self.body(d, s)

    def countdown(self, f, d, sc, v):
        """body of a procedure calling f with a smaller first argument"""
        return [S('if'), [S('<'), v, 1], self.exp(d - 1, sc), [S('+'), self.exp(d - 2, sc), [f, [S('-'), v, 1]]]]

    def g_letrec(self, d, sc):
        f = self.pname()
        v = self.name()
        s = dict(sc)
        s.pop(f, None)
        s[v] = ('int',)
        s2 = dict(sc)
        s2[f] = ('proc', 1, False)
        bs = [[f, [S('lambda'), [v], self.countdown(f, d, s, v)]]]
        if self.r.random() < 0.4:
            g = S('even2')
            bs.append([g, [S('lambda'), [v], [S('+'), 1, [f, v] if self.r.random() < .5 else v]]])
            s2[g] = ('proc', 1, False)
        s2.pop(f)
        body = [S('+'), [f, self.r.randint(0, 4)]] + [self.exp(d - 1, {k: t for k, t in s2.items() if k != S('even2')})]
        return [S('letrec'), bs, body]

    def g_named(self, d, sc):
        f = S(self.r.choice(['loop', 'f']))
        n = S('n')
        s = {k: t for k, t in sc.items() if k != f}
        if self.r.random() < 0.5:
            v = self.name()
            s2 = dict(s)
            s2[n] = s2[v] = ('int',)
            return [S('let'), f, [[n, self.r.randint(0, 4)], [v, self.exp(d - 1, sc)]], self.effect(d - 1, dict(s2, **{n: ('list',)})), [S('if'), [S('<'), n, 1], self.exp(d - 1, s2), [f, [S('-'), n, 1], self.exp(d - 1, s2)]]]
        s2 = dict(s)
        s2[n] = ('list',)
        return [S('let'), f, [[n, self.r.randint(0, 4)]], [S('if'), [S('<'), n, 1], self.exp(d - 1, s2), [S('+'), self.exp(d - 1, s2), [f, [S('-'), n, 1]]]]]

    def g_do(self, d, sc):
        i = S('i')
        v = self.name()
        s2 = dict(sc)
        s2[v] = ('int',)
        s2[i] = ('list',)
        s3 = dict(s2)
        s3[i] = ('int',)
        b = [[i, 0, [S('+'), i, 1]], [v, self.exp(d - 1, sc)] + ([self.exp(d - 1, s2)] if self.r.random() < .7 else [])]
        return [S('do'), b, [self.r.choice([[S('='), i, self.r.randint(0, 4)], [S('memv'), i, [S('quote'), list(range(self.r.randint(0, 4), 9))]]])] + [self.exp(d - 1, s2)]] + ([self.effect(d - 1, s2)] if self.r.random() < .6 else [])

    def g_lam(self, d, sc):
        l, t = self.lamx(d - 1, sc)
        return [l] + self.args(t, d, sc)

    def g_call(self, d, sc):
        ps = self.procs(sc)
        if not ps:
            return None
        n, t = self.r.choice(ps)
        return [n] + self.args(t, d, sc)

    def g_apply(self, d, sc):
        ps = self.procs(sc)
        if ps and self.r.random() < 0.6:
            n, t = self.r.choice(ps)
        else:
            n, t = self.lamx(d - 1, sc)
        a = self.args(t, d, sc)
        k = self.r.randint(0, len(a))     # leading arguments are literals: their order relative to the list is unspecified
        return [S('apply'), n] + [self.lits() for _ in a[:k]] + [[S('list')] + a[k:]]

    def g_mapp(self, d, sc):
        n = self.r.choice([1, 1, 2, 3])
        n = min(n, len(self.names))
        ns = self.r.sample(self.names, n)
        s = dict(sc)
        for x in ns:
            s[x] = ('int',)
        ln = self.r.randint(0, 3)
        return [S('apply'), S('+'), [S('map'), [S('lambda'), ns] + self.body(d - 1, s)] + [[S('list')] + [self.exp(d - 2, sc) for _ in range(ln)] for _ in ns]]

    def g_foreach(self, d, sc):
        v = self.name()
        s = dict(sc)
        s[v] = ('int',)
        return [S('begin'), [S('for-each'), [S('lambda'), [v]] + self.body(d - 1, s), [S('list')] + [self.exp(d - 2, sc) for _ in range(self.r.randint(0, 3))]], self.exp(d - 1, sc)]

    def g_cwv(self, d, sc):
        n = self.r.choice([0, 1, 2, 3])
        ps = self.r.sample(self.names, n)
        s = dict(sc)
        for x in ps:
            s[x] = ('int',)
        return [S('call-with-values'), [S('lambda'), [], [S('values')] + [self.exp(d - 1, sc) for _ in ps]], [S('lambda'), ps] + self.body(d - 1, s)]

    def g_delay(self, d, sc):
        p = S('p')
        e = self.exp(d - 1, sc)
        s = dict(sc)
        s[p] = ('promise',)
        if self.r.random() < .5:
            return [S('force'), [S('delay'), e]]
        return [S('let'), [[p, [S('delay'), [S('T'), self.kk(), e]]]], self.effect(d - 1, s), [S('+'), [S('force'), p], self.exp(d - 1, s), [S('force'), p]]]

    def g_catch(self, d, sc):
        r = self.r.random()
        if r < .3:
            th = [S('lambda'), []] + self.body(d - 1, sc)
        elif r < .7:
            th = [S('lambda'), [], [S('+'), self.exp(d - 1, sc), [S('throw'), [S('quote'), S('k1')], self.exp(d - 1, sc)]]]
        else:
            th = [S('lambda'), [], self.effect(d - 1, sc), [S('car'), [S('quote'), []]]]
        return [S('catch'), True, th, [S('lambda'), Rest([S('key'), S('a')])] + [self.exp(d - 1, sc)]]

    def g_inner(self, d, sc):
        return [S('let'), []] + self.body(d, sc)

    def g_rest(self, d, sc):
        n = self.r.choice([0, 1, 2])
        ps = self.r.sample(self.names, n)
        s = dict(sc)
        for x in ps:
            s[x] = ('int',)
        a = [self.exp(d - 1, sc) for _ in range(n + self.r.randint(0, 3))]
        return [[S('lambda'), Rest(ps + [S('rest')]), [S('+'), [S('length'), S('rest')], [S('apply'), S('+'), S('rest')], self.exp(d - 1, s)]]] + a

    def g_closure(self, d, sc):
        """a counter closure called several times"""
        v = self.name()
        s = dict(sc)
        s[v] = ('int',)
        c = S('cnt')
        s2 = dict(sc)
        return [S('let'), [[c, [S('let'), [[v, self.exp(d - 1, sc)]], [S('lambda'), [], [S('set!'), v, [S('+'), v, self.exp(d - 2, s)]], v]]]], [S('+'), [c], self.exp(d - 1, s2), [c]]]

    def g_ccc(self, d, sc):
        k = S('k')
        s = dict(sc)
        s[k] = ('list',)
        esc = [k, self.exp(d - 1, sc)]
        r = self.r.random()
        if r < .4:
            b = [S('+'), self.exp(d - 1, sc), esc]
        elif r < .7:
            b = [S('if'), self.test(d - 1, sc), esc, self.exp(d - 1, sc)]
        else:
            b = self.exp(d - 1, sc)
        return [S('call/cc'), [S('lambda'), [k], self.effect(d - 1, s), b]]

    def g_dw(self, d, sc):
        th = lambda: [S('lambda'), [], [S('T'), self.kk(), 0]]
        return [S('dynamic-wind'), th(), [S('lambda'), []] + self.body(d - 1, sc), th()]

    def g_err(self, d, sc):
        r = self.r.random()
        if r < .3:
            return [S('nowhere')]
        if r < .5:
            return [S('+'), self.exp(d - 1, sc), [S('car'), self.exp(d - 1, sc)]]
        if r < .7:
            return [self.exp(d - 1, sc), self.lits()]
        return S('undefined-var')

    def g_macro(self, d, sc):
        return None

    def g_shadow(self, d, sc):
        """local names that also denote builtin procedures"""
        n = S(self.r.choice(['list', 'car', 'map', 'apply', 'for-each', 'length', 'not']))
        ps, s, t = self.params({k: v for k, v in sc.items()})
        body = self.exp(0, s)
        return [S('let'), [[n, [S('lambda'), ps, body]]], [n] + [self.exp(0, sc) for _ in range(t[1])]]


def program(rng, weights=None, depth=4, names=None):
    """(expression, expected) or None"""
    g = Gen(rng, weights, names)
    x = g.exp(depth, {})
    if not isinstance(x, list):
        return None
    it = Interp(6000)
    try:
        v = it.ev(x, Env(it.g))
        if big(v) or big(it.trace):
            return None
        r = '(%s %s)' % (wv(v), w(it.trace))
    except SchemeError:
        r = 'ERR'
    except (Fuel, RecursionError, Cont):
        return None
    t = psrc(x)
    if len(t) > 2500 or len(r) > 1500:
        return None
    return '(run (lambda () %s))' % t, r


def add(G, n, weights=None, depth=4, names=None):
    """n random programs to a case list"""
    G.pre(PRE)
    c = 0
    for _ in range(n * 6):
        if c >= n:
            break
        p = program(G.rng, weights, G.rng.choice([depth - 1, depth, depth, depth + 1]), names)
        if p and (p[1] != 'ERR' or G.rng.random() < .3):
            G.case(p[0], p[1])
            c += 1


def toplevel(rng, weights=None, names=None, nforms=12):
    """a script of top-level definitions, assignments and expressions: (text, expected output) or None"""
    g = Gen(rng, weights, names)
    it = Interp(8000)
    sc = {}
    out, text = '', [PRE, "(define (safe thunk) (catch #t thunk (lambda (k . a) 'ERR)))"]
    try:
        for i in range(nforms):
            r = rng.random()
            if r < .3:
                n = g.name() if rng.random() < .7 else g.pname()
                x = [S('define'), n, g.exp(3, {k: v for k, v in sc.items() if k != n})]
                it.ev(x, it.g)
                sc[n] = ('int',)
            elif r < .45 and g.ivars(sc):
                x = [S('set!'), rng.choice(g.ivars(sc)), g.exp(3, sc)]
                it.ev(x, it.g)
            elif r < .65:
                n = g.pname() if rng.random() < .8 else g.name()
                s2 = {k: v for k, v in sc.items() if k != n}
                ps, s3, t = g.params(s2)
                x = [S('define'), Rest([n] + list(ps)) if isinstance(ps, Rest) else [n] + ps] + g.body(3, s3)
                it.ev(x, it.g)
                sc[n] = t
            else:
                x = g.exp(3, sc)
                tr = len(it.trace)
                try:
                    v = it.ev(x, it.g)
                    if big(v):
                        return None
                    out += wv(v) + '\n'
                except SchemeError:
                    out += 'ERR\n'
                text.append('(write (safe (lambda () %s)))(newline)' % psrc(x))
                continue
            text.append(psrc(x))
        if big(it.trace):
            return None
        out += w(it.trace) + '\n'
        text.append('(write (reverse tr))(newline)')
    except (SchemeError, Fuel, RecursionError, Cont):
        return None
    t = '\n'.join(text) + '\n'
    if len(t) > 6000 or out.count('\n') < 3:
        return None
    return t, out


def add_toplevel(G, n, weights=None, names=None):
    c = 0
    for _ in range(n * 8):
        if c >= n:
            break
        p = toplevel(G.rng, weights, names, G.rng.randint(6, 20))
        if p:
            want = p[1]

            def ok(got, want=want):
                return '\n'.join(l for l in got.split('\n') if not l.startswith('[symtbl]')) == want
            ok.text = want
            G.program('toplevel%d' % c, p[0], ok)
            c += 1
