from dsl import *
from symex import TDIV, TREM, farith, i2f
from C01 import iabs, MIN, MAX, abstract
S_ = Specs()


def ratpost(c, N, D):
    """the result is the rational N/D in normal form: positive denominator, no common factor, an integer when it divides"""
    n, d = If(D < 0, -N, N), If(D < 0, -D, D)
    g = c.gcd(iabs(N), d, contract=True)
    c.assume(N > MIN, N <= MAX, D > MIN, D <= MAX)
    c.assume(Implies(D != 0, g >= 1))
    qn, qd = TDIV(n, g), TDIV(d, g)

    def post(R):
        whole = Or(N == 0, qd == 1)
        yield 'an integer exactly when the denominator divides', Implies(whole, R.is_num(If(N == 0, IntVal(0), qn)))
        yield 'otherwise a rational', Implies(Not(whole), R.is_('RATIO'))
        yield 'numerator in lowest terms, carrying the sign', Implies(Not(whole), R.get('SCM_Rational.numerator', R.value) == qn)
        yield 'denominator in lowest terms, positive', Implies(Not(whole), R.get('SCM_Rational.denominator', R.value) == qd)
    c.post(post)
    c.modifies(lambda R: [])


def exact(c, n, kind):
    o = c.num(n) if kind == 'int' else c.ratio(n)
    if kind == 'int':
        o.num, o.den = o.v, IntVal(1)
    c.assume(o.num > MIN, o.num <= MAX, o.den >= 1)
    return o


@S_('C:gcd/2', 'helper: greatest common divisor of the absolute values')
def _(c):
    c.overflow()
    a, b = c.int('a'), c.int('b')
    c.assume(a != MIN, b != MIN)
    c.args = [a, b]
    g = c.gcd(iabs(a), iabs(b))
    c.post(lambda R: [('gcd', R.v == g)])


def fit(c, *ts):
    for t in ts:
        c.assume(t > MIN, t <= MAX)


def bin_spec(op, ka, kb):
    def f(c):
        c.overflow()
        a, b = exact(c, 'a', ka), exact(c, 'b', kb)
        if op == '*':
            N, D = a.num * b.num, a.den * b.den
        elif op == '/':
            c.assume(b.num != 0)
            N, D = a.num * b.den, a.den * b.num
        else:
            l, r = a.num * b.den, b.num * a.den
            fit(c, simp(l), simp(r))
            N, D = (l + r if op == '+' else l - r), a.den * b.den
        N, D = simp(N), simp(D)
        fit(c, N, D)
        c.assume(D != 0)
        if op != '/':
            c.assume(D > 0)
        c.call(a, b)
        ratpost(c, N, D)
    return f


for op in '+-*/':
    for ka in ('int', 'ratio'):
        for kb in ('int', 'ratio'):
            if op != '/' and ka == kb == 'int':
                continue
            S_.add(op, '%s and %s: exact, in lowest terms' % (ka, kb), bin_spec(op, ka, kb))


def un_spec(op, k):
    def f(c):
        c.overflow()
        a = exact(c, 'a', k)
        if op == '/':
            c.assume(a.num != 0)
        c.call(a)
        ratpost(c, -a.num if op == '-' else a.den, a.den if op == '-' else a.num)
    return f


S_.add('/', 'reciprocal of an integer', un_spec('/', 'int'))
S_.add('/', 'reciprocal of a rational', un_spec('/', 'ratio'))
S_.add('-', 'negation of a rational', un_spec('-', 'ratio'))


@S_('/', 'division by exact zero is an error')
def _(c):
    a, b = c.numeric('a'), c.num('b')
    c.assume(Or(c.is_(a.p, 'NUM'), c.is_(a.p, 'RATIO')), b.v == 0)
    c.call(a, b)
    c.err()


@S_('/', 'reciprocal of zero is an error')
def _(c):
    a = c.num('a')
    c.assume(a.v == 0)
    c.call(a)
    c.err()


@S_('/', 'a non-number is an error')
def _(c):
    a, b = c.any('a'), c.any('b')
    num = lambda o: c.is_(o.p, 'NUM', 'FLOAT', 'RATIO')
    c.assume(Not(And(num(a), num(b))))
    c.call(a, b)
    c.err()


@S_('/', 'a single non-number is an error')
def _(c):
    c.call(c.not_('a', 'NUM', 'FLOAT', 'RATIO'))
    c.err()


@S_('/', 'no argument: 1')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda R: [('one', R.is_num(IntVal(1)))])


@S_('/', 'any number of integers divide left to right')
def _(c):
    L = c.list_cells('args', minlen=2)
    v = lambda k: c.value0(L.D(k))
    c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), And(c.type0(L.D(t), 'NUM'), v(t) > MIN, v(t) <= MAX, Implies(t >= 1, v(t) != 0))), 'ints'))
    c.assume(c.type0(L.D(IntVal(0)), 'NUM'), v(IntVal(0)) > MIN, v(IntVal(0)) <= MAX)
    c.args = [L.W(IntVal(0))]
    F = c.fold('den', IntVal(1), lambda p, k: p * v(k + 1))
    c.st.fact(AppFact(F, lambda k: Implies(And(k >= 0, k < L.n), And(F(k) != 0, F(k) > MIN, F(k) <= MAX)), 'products fit'))
    ratpost(c, v(IntVal(0)), F(L.n - 1))


def floatdiv(kind):
    def f(c):
        a, b = c.numeric('a'), c.numeric('b')
        fl = lambda o: c.is_(o.p, 'FLOAT')
        c.assume(fl(a) if kind == 0 else And(Not(fl(a)), fl(b)))
        x, y = c.dbl(a), c.dbl(b)
        from symex import feq
        c.assume(Not(feq(y, IntVal(0))))
        c.call(a, b)
        if kind == 0:
            c.post(lambda R: [('inexact quotient', Or(*[And(c.is_(b.p, t), R.is_obj('FLOAT', farith(c.st, 'fdiv', a.v, yy))) for t, yy in (('FLOAT', b.v), ('NUM', i2f(c.st, b.v)), ('RATIO', y))]))])
        else:
            c.assume(c.is_(a.p, 'RATIO'))
            c.post(lambda R: [('inexact quotient', R.is_obj('FLOAT', farith(c.st, 'fdiv', farith(c.st, 'fdiv', i2f(c.st, c.get('SCM_Rational.numerator', a.v)), i2f(c.st, c.get('SCM_Rational.denominator', a.v))), b.v)))])
    return f


S_.add('/', 'inexact dividend: the floating point quotient', floatdiv(0))
S_.add('/', 'rational by inexact divisor: the floating point quotient', floatdiv(1))


def fl_spec(op, k):
    def f(c):
        a, b = c.numeric('a'), c.numeric('b')
        c.assume(c.is_(a.p, 'FLOAT') if k == 0 else c.is_(b.p, 'FLOAT'))
        c.call(a, b)
        x, y = c.dbl(a), c.dbl(b)
        nm = {'+': 'fadd', '-': 'fsub', '*': 'fmul'}[op]

        def opnd(o):
            return [('FLOAT', o.v), ('NUM', i2f(c.st, o.v)), ('RATIO', farith(c.st, 'fdiv', i2f(c.st, c.get('SCM_Rational.numerator', o.v)), i2f(c.st, c.get('SCM_Rational.denominator', o.v))))]
        if k == 0:
            c.post(lambda R: [('floating point result', Or(*[And(c.is_(b.p, t), R.is_obj('FLOAT', farith(c.st, nm, a.v, z))) for t, z in opnd(b)]))])
        else:
            c.post(lambda R: [('floating point result', Or(*[And(c.is_(a.p, t), R.is_obj('FLOAT', farith(c.st, nm, z, b.v))) for t, z in opnd(a)]))])
    return f


for op in '+-*':
    S_.add(op, 'inexact first argument makes the result inexact', fl_spec(op, 0))
    S_.add(op, 'inexact second argument makes the result inexact', fl_spec(op, 1))


def conform(G):
    import conform as cf
    from fractions import Fraction as Fr
    r = G.rng
    small = [0, 1, -1, 2, -2, 3, -3, 4, 5, 6, -6, 7, 9, 10, 12, -12, 15, 100, 97, -97, 1024, 12345, (1 << 31), -(1 << 31), (1 << 40) + 1, 10 ** 9 + 7] + [h for h in G.hint if abs(h) < 1 << 62]
    big = small + [(1 << 62), -(1 << 62), MAX, -MAX, (1 << 53) + 1]
    fr = []
    for n in small:
        for d in small:
            if d and Fr(n, d).denominator != 1:
                fr.append((n, d))

    def ex(x):
        return str(x) if isinstance(x, int) else '(/ %d %d)' % x

    def val(x):
        return Fr(x) if isinstance(x, int) else Fr(*x)
    for n in big:
        for d in r.sample(big, G.n(12, len(big))):
            if d:
                G.case('(/ %d %d)' % (n, d), cf.w(Fr(n, d)))
            else:
                G.err('(/ %d 0)' % n)
        if n:
            G.case('(/ %d)' % n, cf.w(Fr(1, n)))
    G.err('(/ 0)')
    G.case('(/)', '1')
    xs = fr + small
    OP = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
    for _ in range(G.n(900, 8000)):
        a, b = r.choice(fr), r.choice(xs)
        if r.random() < .4:
            a, b = b, a
        for op, f in OP.items():
            A, B = val(a), val(b)
            if op == '/' and B == 0:
                G.err('(/ %s %s)' % (ex(a), ex(b)))
                continue
            raw = abs(A.numerator * B.denominator) + abs(A.denominator * B.numerator) + abs(A.denominator * B.denominator) + abs(A.numerator * B.numerator)
            if raw < MAX:
                G.case('(%s %s %s)' % (op, ex(a), ex(b)), cf.w(f(A, B)))
    for a in r.sample(fr, min(len(fr), G.n(60, 600))):
        A = val(a)
        G.case('(- %s)' % ex(a), cf.w(-A))
        G.case('(/ %s)' % ex(a), cf.w(1 / A))
        G.case('(* %s)' % ex(a), cf.w(A))
        G.case('(+ %s)' % ex(a), cf.w(A))
    for _ in range(G.n(120, 1500)):
        ys = [r.choice([1, 2, 3, -4, 5, 6, -7, 8, (1, 2), (2, 3), (-3, 4), (5, 6), (7, -9)]) for _ in range(r.randint(3, 5))]
        vs = [val(y) for y in ys]
        s = ' '.join(ex(y) for y in ys)
        a = vs[0]
        for v in vs[1:]:
            a = a / v
        G.case('(/ %s)' % s, cf.w(a))
        G.case('(+ %s)' % s, cf.w(sum(vs)))
        G.case('(- %s)' % s, cf.w(vs[0] - sum(vs[1:])))
        m = Fr(1)
        for v in vs:
            m *= v
        G.case('(* %s)' % s, cf.w(m))
    fl = [0.5, 1.5, -2.25, 3.0, 1e10, -0.125]
    for x in fl:
        for y in fl + [(1, 2), (-3, 4), (5, 8), 3, -7]:
            Y = y if isinstance(y, float) else float(val(y))
            ys = ('%r' % y) if isinstance(y, float) else ex(y)
            if ys.endswith('e+10') or '10000000000' in ys:
                ys = '10000000000.0'
            xs_ = '10000000000.0' if x == 1e10 else '%r' % x
            for op in '+-*':
                G.case('(= (%s %s %s) %r)' % (op, xs_, ys, OP[op](x, Y)) if 'e' not in repr(OP[op](x, Y)) else '#t', '#t')
                G.case('(inexact? (%s %s %s))' % (op, ys, xs_), '#t')
            G.case('(inexact? (/ %s %s))' % (xs_, ys), '#t')
    for e, wr in cf.OBJS:
        if wr and __import__('C01').re_num(wr):
            continue
        for t in ('(/ 3 %s)', '(/ %s 3)', '(/ %s)', '(/ (/ 1 2) %s)', '(/ 1.5 %s)', '(/ 6 2 %s)', '(/ 6 1.5 %s)', '(- (/ 1 2) %s)', '(+ %s (/ 1 2))'):
            G.err(t % e)
    for t in ('(/ 1.5 0)', '(/ 1.5 0.0)', '(/ 1 0.0)', '(/ (/ 1 2) 0)', '(/ 6 2 0)', '(/ 6 0 2)', '(/ 6 1.5 0)', '(/ 0.0)'):
        G.err(t)
