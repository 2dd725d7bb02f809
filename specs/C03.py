from dsl import *
from symex import feq, FLT, FLE, farith, i2f
from C01 import MIN, MAX, iabs, re_num
S_ = Specs()
REL = {'=': lambda a, b: a == b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
FREL = {'=': feq, '<': FLT, '>': lambda a, b: FLT(b, a), '<=': FLE, '>=': lambda a, b: FLE(b, a)}
FN = {'=': 'scm_c_eq_number', '<': 'scm_c_lt_number', '>': 'scm_c_gt_number', '<=': 'scm_c_lt_eq_number', '>=': 'scm_c_gt_eq_number'}


def opnd(c, o):
    return [('FLOAT', o.v), ('NUM', i2f(c.st, o.v)), ('RATIO', farith(c.st, 'fdiv', i2f(c.st, c.get('SCM_Rational.numerator', o.v)), i2f(c.st, c.get('SCM_Rational.denominator', o.v))))]


def two(op, kind):
    def f(c):
        if kind == 'int':
            a, b = c.num('a'), c.num('b')
            c.call(a, b)
            c.post(lambda R: [('comparison', R.is_bool(REL[op](a.v, b.v)))])
        elif kind == 'exact':
            a, b = c.numeric('a', 'NUM', 'RATIO'), c.numeric('b', 'NUM', 'RATIO')
            fr = lambda o: (If(c.is_(o.p, 'NUM'), o.v, c.get('SCM_Rational.numerator', o.v)), If(c.is_(o.p, 'NUM'), IntVal(1), c.get('SCM_Rational.denominator', o.v)))
            (an, ad), (bn, bd) = fr(a), fr(b)
            c.assume(ad >= 1, bd >= 1)
            c.call(a, b)
            rn = lambda o: c.get('SCM_Rational.numerator', o.v)
            rd = lambda o: c.get('SCM_Rational.denominator', o.v)

            def post(R):
                for ta in ('NUM', 'RATIO'):
                    for tb in ('NUM', 'RATIO'):
                        n1, d1 = (a.v, IntVal(1)) if ta == 'NUM' else (rn(a), rd(a))
                        n2, d2 = (b.v, IntVal(1)) if tb == 'NUM' else (rn(b), rd(b))
                        yield 'comparison of %s and %s' % (ta, tb), Implies(And(c.is_(a.p, ta), c.is_(b.p, tb)), R.is_bool(REL[op](simp(n1 * d2), simp(n2 * d1))))
            c.post(post)
        elif kind == 'float':
            a, b = c.numeric('a'), c.numeric('b')
            c.assume(Or(c.is_(a.p, 'FLOAT'), c.is_(b.p, 'FLOAT')))
            c.call(a, b)
            c.post(lambda R: [('comparison of the double values', And(*[Implies(And(c.is_(a.p, ta), c.is_(b.p, tb)), R.is_bool(FREL[op](x, y))) for ta, x in opnd(c, a) for tb, y in opnd(c, b) if 'FLOAT' in (ta, tb)]))])
        else:
            a, b = c.any('a'), c.any('b')
            num = lambda o: c.is_(o.p, 'NUM', 'FLOAT', 'RATIO')
            c.assume(Not(And(num(a), num(b))))
            c.call(a, b)
            c.err()
        c.modifies(lambda R: [])
    return f


def chain(op, truth):
    def f(c):
        """the adjacent comparison by its own contract (a boolean determined by the two objects)"""
        L = c.list_cells('args', minlen=3)
        c.args = [L.W(IntVal(0))]
        Q = z3.Function('holds', I, I, B)
        from builtin_fns import singleton

        def h(ex, st, args, ins, g):
            x, y = [simp(ex.ptrval(q)) for q in args]
            ex.note_assume('%s is used through its own contract (two-argument behaviours)' % FN[op])
            s1, s0 = st.fork(), st
            s1.assume(Q(x, y))
            s0.assume(Not(Q(x, y)))
            return [('ret', s1, singleton(ex, s1, 'bool_true'), ''), ('ret', s0, singleton(ex, s0, 'bool_false'), '')]
        c.ex.builtins[FN[op]] = h
        if truth:
            c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n - 1), Q(L.D(t), L.D(t + 1))), 'all adjacent pairs'))
            c.post(lambda R: [('true when every adjacent pair is ordered', R.is_bool(BoolVal(True)))])
        else:
            w = z3.Int('w')
            c.assume(w >= 0, w < L.n - 1, Not(Q(L.D(w), L.D(w + 1))))
            c.st.addidx(w)
            c.post(lambda R: [('false when some adjacent pair is not', R.is_bool(BoolVal(False)), dict(idx=[w]))])
    return f


for op in REL:
    S_.add(op, 'two integers, exactly', two(op, 'int'))
    S_.add(op, 'integers and rationals, exactly', two(op, 'exact'))
    S_.add(op, 'an inexact operand: comparison as doubles', two(op, 'float'))
    S_.add(op, 'a non-number is an error', two(op, 'bad'))
    S_.add(op, 'three or more arguments: all adjacent pairs in order', chain(op, True))
    S_.add(op, 'three or more arguments: a pair out of order', chain(op, False))


def sign(rel, frel):
    def f(c):
        a = c.numeric('a')
        c.call(a)
        z = IntVal(0)
        n, d = c.get('SCM_Rational.numerator', a.v), c.get('SCM_Rational.denominator', a.v)
        c.assume(Implies(c.is_(a.p, 'RATIO'), And(d > 0, n != 0)))
        c.post(lambda R: [('integer', Implies(c.is_(a.p, 'NUM'), R.is_bool(rel(a.v)))), ('rational', Implies(c.is_(a.p, 'RATIO'), R.is_bool(rel(n)))), ('inexact', Implies(c.is_(a.p, 'FLOAT'), R.is_bool(frel(a.v, z))))])
    return f


for nm, rel, frel in (('positive?', lambda x: x > 0, lambda x, z: FLT(z, x)), ('negative?', lambda x: x < 0, lambda x, z: FLT(x, z)), ('zero?', lambda x: x == 0, lambda x, z: feq(x, z))):
    S_.add(nm, 'sign of any number', sign(rel, frel))


def parity(odd):
    def f(c):
        a = c.num('a')
        c.call(a)
        c.post(lambda R: [('parity', R.is_bool((a.v % 2 == 1) if odd else (a.v % 2 == 0)))])
    return f


S_.add('odd?', 'parity of every integer', parity(True))
S_.add('even?', 'parity of every integer', parity(False))


def fparity(odd):
    def f(c):
        # an inexact integer has the parity of the integer it is
        a = c.flt('a')
        n = F2I(a.v)
        c.assume(n >= -(1 << 63), n < (1 << 63))
        c.call(a)

        def post(R):
            yield 'parity', Implies(n % 2 == (1 if odd else 0), R.is_bool(True))
            yield 'of the integer', Implies(n % 2 == (0 if odd else 1), R.is_bool(False))
        c.whole = n
        c.post(post)
        c.assume(feq(a.v, I2F(n)))
    return f


S_.add('odd?', 'parity of every inexact integer', fparity(True))
S_.add('even?', 'parity of every inexact integer', fparity(False))


def badn(*ts):
    def f(c):
        c.call(c.not_('a', *ts))
        c.err()
    return f


for nm in ('positive?', 'negative?', 'zero?', 'odd?', 'even?', 'sqrt'):
    S_.add(nm, 'a non-number is an error', badn('NUM', 'FLOAT', 'RATIO'))
for nm in ('odd?', 'even?'):
    S_.add(nm, 'a rational is an error', lambda c: (c.call(c.ratio('a')), c.err()))


def contract2(c, op):
    """the integer comparison by its own contract (behaviour "two integers, exactly")"""
    from builtin_fns import singleton

    def h(ex, st, args, ins, g):
        x, y = [simp(ex.ptrval(q)) for q in args]
        ex.obl(st, And(c.type0(x, 'NUM'), c.type0(y, 'NUM')), 'precondition of %s: two integers' % FN[op], 'pre')
        ex.note_assume('%s is used through its own contract (two integers, exactly)' % FN[op])
        s1, s0 = st.fork(), st
        q = REL[op](c.value0(x), c.value0(y))
        s1.assume(q)
        s0.assume(Not(q))
        return [('ret', s1, singleton(ex, s1, 'bool_true'), ''), ('ret', s0, singleton(ex, s0, 'bool_false'), '')]
    c.ex.builtins[FN[op]] = h


def ext(mx, kind):
    better = (lambda x, y: x > y) if mx else (lambda x, y: x < y)

    def f(c):
        if kind == 'one':
            a = c.num('a')
            c.call(a)
            c.post(lambda R: [('itself', R.is_num(a.v))])
        elif kind == 'two':
            a, b = c.num('a'), c.num('b')
            c.call(a, b)
            c.post(lambda R: [('extreme', R.is_num(If(better(b.v, a.v), b.v, a.v)))])
        elif kind == 'ints':
            L = c.list_cells('args', minlen=1)
            v = lambda k: c.value0(L.D(k))
            c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), And(c.type0(L.D(t), 'NUM'), v(t) >= MIN, v(t) <= MAX)), 'ints'))
            c.assume(c.type0(L.D(IntVal(0)), 'NUM'))
            c.args = [L.W(IntVal(0))]
            contract2(c, '>' if mx else '<')
            F = c.fold('ext', v(IntVal(0)), lambda p, k: If(better(v(k + 1), p), v(k + 1), p), view=c.value0, also=(lambda p: c.type0(p, 'NUM'), lambda p: And(p > 0, p < c.A0)))
            c.post(lambda R: [('extreme of all', R.is_num(F(L.n - 1)))])
        elif kind == 'float':
            a, b = c.numeric('a', 'FLOAT'), c.numeric('b', 'FLOAT')
            c.call(a, b)
            q = FLT(a.v, b.v) if mx else FLT(b.v, a.v)
            c.post(lambda R: [('extreme', R.is_obj('FLOAT', If(q, b.v, a.v)))])
        elif kind == 'mixed':
            a, b = c.numeric('a', 'NUM'), c.numeric('b', 'FLOAT')
            c.call(a, b)
            x = i2f(c.st, a.v)
            q = FLT(x, b.v) if mx else FLT(b.v, x)
            c.post(lambda R: [('inexact extreme', R.is_obj('FLOAT', If(q, b.v, x)))])
        elif kind == 'ratios':
            a, b = c.ratio('a'), c.ratio('b')
            c.assume(a.den >= 1, b.den >= 1)
            c.call(a, b)
            l, r = simp(a.num * b.den), simp(b.num * a.den)
            q = better(r, l)
            c.post(lambda R: [('rational', R.is_('RATIO')), ('numerator of the extreme', R.get('SCM_Rational.numerator', R.value) == If(q, b.num, a.num)), ('denominator of the extreme', R.get('SCM_Rational.denominator', R.value) == If(q, b.den, a.den))])
        elif kind == 'none':
            c.args = [IntVal(0)]
            c.err()
        else:
            a, b = c.any('a'), c.any('b')
            num = lambda o: c.is_(o.p, 'NUM', 'FLOAT', 'RATIO')
            c.assume(Not(And(num(a), num(b))))
            c.call(a, b)
            c.err()
        if kind not in ('none', 'bad'):
            c.modifies(lambda R: [])
    return f


for nm, mx in (('max', True), ('min', False)):
    for k, t in (('one', 'one integer'), ('two', 'two integers, exactly'), ('ints', 'any number of integers'), ('float', 'two inexact numbers'), ('mixed', 'an inexact argument makes the result inexact'),
                 ('ratios', 'two rationals, exactly'), ('none', 'no argument is an error'), ('bad', 'a non-number is an error')):
        S_.add(nm, t, ext(mx, k))


def conform(G):
    import conform as cf
    from fractions import Fraction as Fr
    r = G.rng
    ints = G.ints() + [(1 << 53) + 2, (1 << 62) + 1, -(1 << 62) - 1]
    rats = [(1, 2), (-1, 2), (1, 3), (2, 3), (333333, 1000000), (-7, 3), (22, 7), (355, 113), (1, MAX), (-1, MAX), (MAX, 2), (MAX - 1, MAX), (MAX - 2, MAX), (4611686018427387904, 3), (4611686018427387905, 3), ((1 << 53) + 1, 2)]
    flts = [0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.0, 100.25, -100.25, 0.1, 1e9]
    ex = lambda x: str(x) if isinstance(x, int) else ('%r' % x if isinstance(x, float) else '(/ %d %d)' % x)
    val = lambda x: Fr(*x) if isinstance(x, tuple) else x
    b = lambda t: '#t' if t else '#f'

    def cmp(op, x, y):
        X, Y = val(x), val(y)
        if isinstance(X, float) or isinstance(Y, float):
            X, Y = float(X), float(Y)
        return {'=': X == Y, '<': X < Y, '>': X > Y, '<=': X <= Y, '>=': X >= Y}[op]
    pool = ints + rats + flts
    pairs = [(x, y) for x in pool for y in pool]
    near = [(x, x + d) for x in ints for d in (-1, 0, 1) if cf.fits(x + d) and x + d != MIN and x != MIN]
    for x, y in (r.sample(pairs, min(len(pairs), G.n(420, 5000))) + near + [(p, q) for p in rats for q in rats]):
        if isinstance(x, int) and x == MIN or isinstance(y, int) and y == MIN:
            continue
        for op in REL:
            G.case('(%s %s %s)' % (op, ex(x), ex(y)), b(cmp(op, x, y)))
        if type(x) == type(y) or not isinstance(x, float) and not isinstance(y, float):
            for nm, f in (('max', max), ('min', min)):
                w = f(val(x), val(y))
                G.case('(%s %s %s)' % (nm, ex(x), ex(y)), cf.w(w) if not isinstance(w, float) else lambda g, w=w: g.replace('.0', '') == ('%r' % w).replace('.0', '') or g not in ('ERR',) and float(g) == w)
        elif abs(float(val(x))) < 1e15 and abs(float(val(y))) < 1e15:
            G.case('(inexact? (max %s %s))' % (ex(x), ex(y)), '#t')
            G.case('(inexact? (min %s %s))' % (ex(x), ex(y)), '#t')
            G.case('(= (max %s %s) %s)' % (ex(x), ex(y), ex(x if float(val(x)) > float(val(y)) else y)), '#t')
    for x in ints:
        if x == MIN:
            continue
        G.case('(odd? %d)' % x, b(x % 2 == 1))
        G.case('(even? %d)' % x, b(x % 2 == 0))
        for d in (1, -1):
            if cf.fits(x + d) and x + d != MIN:
                G.case('(odd? %d)' % (x + d), b((x + d) % 2 == 1))
                G.case('(even? %d)' % (x + d), b((x + d) % 2 == 0))
    for x in pool:
        if x == MIN:
            continue
        v = val(x)
        for nm, t in (('positive?', v > 0), ('negative?', v < 0), ('zero?', v == 0)):
            G.case('(%s %s)' % (nm, ex(x)), b(t))
    for x in [0.0, 1.0, -1.0, 2.0, -3.0, 255.0, 256.0, 65537.0, 2147483647.0, 2147483648.0, 2147483649.0, -2147483649.0, 4294967295.0, 4294967296.0, 4294967297.0, 9007199254740991.0, -9007199254740991.0, 9007199254740992.0] + [float(r.randrange(-1 << 53, 1 << 53)) for _ in range(20)]:
        G.case('(odd? %.1f)' % x, b(int(x) % 2 == 1))
        G.case('(even? %.1f)' % x, b(int(x) % 2 == 0))
    for x in rats + [1.5, -0.5]:
        G.err('(odd? %s)' % ex(x))
        G.err('(even? %s)' % ex(x))
    for k in range(G.n(160, 1500)):
        n = r.randint(3, 7)
        base = sorted(r.sample(range(-40, 40), n))
        mode = r.choice(['inc', 'dec', 'eq', 'dup', 'swap', 'rand'])
        xs = base[:] if mode == 'inc' else base[::-1] if mode == 'dec' else [base[0]] * n if mode == 'eq' else sorted(base[:-1] + [base[1]]) if mode == 'dup' else base
        if mode == 'swap':
            i = r.randrange(n - 1)
            xs = base[:]
            xs[i], xs[i + 1] = xs[i + 1], xs[i]
        if mode == 'rand':
            r.shuffle(xs)
        if r.random() < .3:
            xs = xs[:]
            xs[r.randrange(n)] = r.choice(xs)
        s = ' '.join(map(str, xs))
        for op in REL:
            G.case('(%s %s)' % (op, s), b(all(cmp(op, p, q) for p, q in zip(xs, xs[1:]))))
        G.case('(max %s)' % s, str(max(xs)))
        G.case('(min %s)' % s, str(min(xs)))
    for op in REL:
        G.case('(%s)' % op, '#t')
        G.case('(%s 5)' % op, '#t')
    for e, wr in cf.OBJS:
        if wr and re_num(wr):
            continue
        for op in list(REL) + ['max', 'min']:
            for t in ('(%s 3 %s)', '(%s %s 3)', '(%s 1.5 %s)', '(%s (/ 1 2) %s)'):
                G.err(t % ((op, e)))
        for op in ('positive?', 'negative?', 'zero?', 'odd?', 'even?', 'max', 'min'):
            G.err('(%s %s)' % (op, e))
    G.err('(max)')
    G.err('(min)')
