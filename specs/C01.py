from dsl import *
from symex import tdiv, trem, TDIV, TREM
S_ = Specs()
MIN, MAX = -(1 << 63), (1 << 63) - 1
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}


def binop(op):
    def ok(c):
        c.overflow()
        a, b = c.num('a'), c.num('b')
        r = ARITH[op](a.v, b.v)
        c.fits(r)
        c.call(a, b)
        c.post(lambda R: [('exact integer result', R.is_num(simp(r)))])
        c.modifies(lambda R: [])

    def bad(c):
        a, b = c.any('a'), c.any('b')
        num = lambda o: c.is_(o.p, 'NUM', 'FLOAT', 'RATIO')
        c.assume(Not(And(num(a), num(b))))
        c.call(a, b)
        c.err()
    return ok, bad


for op in ARITH:
    ok, bad = binop(op)
    S_.add(op, 'two integers: the exact result whenever it fits in 64 bits', ok)
    S_.add(op, 'a non-number is an error', bad)


@S_('-', 'one integer: its exact negation')
def _(c):
    c.overflow()
    a = c.num('a')
    c.assume(a.v != MIN)
    c.call(a)
    c.post(lambda R: [('negation', R.is_num(-a.v))])


@S_('-', 'no argument is an error')
def _(c):
    c.args = [IntVal(0)]
    c.err()


@S_('-', 'one non-number is an error')
def _(c):
    c.call(c.not_('a', 'NUM', 'FLOAT', 'RATIO'))
    c.err()


MINUS = z3.Function('minus_object', I, I, I)
ADD = z3.Function('add_object', I, I, I)


def abstract(c, name, fn):
    """the two-argument operation by its own contract: some valid object determined by the arguments, or an error"""
    def h(ex, st, args, ins, f):
        ex.note_assume('%s is used through its own contract (two-argument behaviours above)' % name)
        v = fn(*[simp(ex.ptrval(a)) for a in args])
        st.assume(And(v > 0, v < st.A))
        e = st.fork()
        return [('ret', st, simp(v), '')]
    c.ex.builtins[name] = h


@S_('-', 'three or more arguments subtract left to right')
def _(c):
    L = c.list_cells('args', minlen=2)
    c.args = [L.W(IntVal(0))]
    abstract(c, 'scm_c_minus_number', MINUS)
    F = c.fold('minus', L.D(IntVal(0)), lambda p, k: MINUS(p, L.D(k + 1)))
    c.post(lambda R: [('difference of the first and all following arguments', R.v == F(L.n - 1))])


def reduce_spec(c):
    """the variadic driver of + and *"""


def sdiv(op, of):
    def ok(c):
        c.overflow()
        a, b = c.num('a'), c.num('b')
        c.assume(b.v != 0, Not(And(a.v == MIN, b.v == -1)))
        c.call(a, b)
        q, r = TDIV(a.v, b.v), TREM(a.v, b.v)
        # q and r: the unique pair with a = q*b + r, |r| < |b|, r = 0 or of the sign of a
        c.assume(a.v == q * b.v + r, Implies(a.v >= 0, r >= 0), Implies(a.v <= 0, r <= 0), r < If(b.v > 0, b.v, -b.v), -r < If(b.v > 0, b.v, -b.v))
        c.assume(q >= MIN, q <= MAX)
        c.post(lambda R: [('result', R.is_num(of(a.v, b.v, q, r)))])

    def zero(c):
        a, b = c.num('a'), c.num('b')
        c.assume(b.v == 0)
        c.call(a, b)
        c.err()

    def bad(c):
        a, b = c.any('a'), c.any('b')
        c.assume(Not(And(c.is_(a.p, 'NUM'), c.is_(b.p, 'NUM'))))
        c.call(a, b)
        c.err()
    S_.add(op, 'exact for all non-zero divisors', ok)
    S_.add(op, 'division by zero is an error', zero)
    S_.add(op, 'a non-integer is an error', bad)


sdiv('quotient', lambda a, b, q, r: q)
sdiv('remainder', lambda a, b, q, r: r)
sdiv('modulo', lambda a, b, q, r: If(And(r != 0, (r > 0) != (b > 0)), r + b, r))


@S_('abs', 'absolute value of an integer')
def _(c):
    c.overflow()
    a = c.num('a')
    c.assume(a.v != MIN)
    c.call(a)
    c.post(lambda R: [('absolute value', R.is_num(If(a.v < 0, -a.v, a.v)))])


@S_('abs', 'absolute value of a rational')
def _(c):
    a = c.ratio('a')
    c.assume(a.num != MIN)
    c.assume(c.gcd(If(a.num < 0, -a.num, a.num), a.den) == 1)
    c.call(a)
    c.post(lambda R: [('rational', R.is_('RATIO')), ('numerator', R.get('SCM_Rational.numerator', R.value) == If(a.num < 0, -a.num, a.num)), ('denominator', R.get('SCM_Rational.denominator', R.value) == a.den)])


@S_('abs', 'a non-number is an error')
def _(c):
    c.call(c.not_('a', 'NUM', 'FLOAT', 'RATIO'))
    c.err()


def iabs(x):
    return If(x < 0, -x, x)


@S_('C:gcd/2', 'helper: greatest common divisor of the absolute values')
def _(c):
    c.overflow()
    a, b = c.int('a'), c.int('b')
    c.assume(a != MIN, b != MIN)
    c.args = [a, b]
    g = c.gcd(iabs(a), iabs(b))
    c.post(lambda R: [('gcd', R.v == g)])


@S_('gcd', 'no arguments: 0')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda R: [('zero', R.is_num(IntVal(0)))])


@S_('lcm', 'no arguments: 1')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda R: [('one', R.is_num(IntVal(1)))])


@S_('gcd', 'one integer')
def _(c):
    c.overflow()
    a = c.num('a')
    c.assume(a.v != MIN)
    c.call(a)
    c.post(lambda R: [('absolute value', R.is_num(iabs(a.v)))])


@S_('lcm', 'one integer')
def _(c):
    c.overflow()
    a = c.num('a')
    c.assume(a.v != MIN)
    c.call(a)
    c.post(lambda R: [('absolute value', R.is_num(iabs(a.v)))])


@S_('gcd', 'two integers')
def _(c):
    c.overflow()
    a, b = c.num('a'), c.num('b')
    c.assume(a.v != MIN, b.v != MIN)
    c.call(a, b)
    g = c.gcd(iabs(a.v), iabs(b.v))
    c.post(lambda R: [('greatest common divisor', R.is_num(g))])


@S_('lcm', 'two non-zero integers')
def _(c):
    a, b = c.num('a'), c.num('b')
    c.assume(a.v != MIN, b.v != MIN, a.v != 0, b.v != 0)
    c.call(a, b)
    x, y = iabs(a.v), iabs(b.v)
    g = c.gcd(x, y, contract=True)
    c.assume(g >= 1)          # follows from x, y > 0
    l = TDIV(x, g) * y
    c.fits(l)
    c.post(lambda R: [('least common multiple', R.is_num(l))])


def lcm_zero(which):
    def f(c):
        a, b = c.num('a'), c.num('b')
        c.assume(a.v != MIN, b.v != MIN)
        c.assume(a.v == 0 if which != 1 else a.v != 0, b.v == 0 if which != 0 else b.v != 0)
        c.call(a, b)
        x, y = iabs(a.v), iabs(b.v)
        g = c.gcd(x, y, contract=True)
        c.assume(g == simp(x + y))
        c.post(lambda R: [('zero', R.is_num(IntVal(0)))])
    return f


for k, nm in enumerate(('first', 'second', 'each')):
    S_.add('lcm', 'two integers, %s zero' % nm, lcm_zero(k))


def intlist(c, n='args'):
    L = c.list_cells(n, minlen=1)
    c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), And(c.type0(L.D(t), 'NUM'), c.value0(L.D(t)) > MIN, c.value0(L.D(t)) <= MAX)), 'ints'))
    c.args = [L.W(IntVal(0))]
    return L, lambda k: c.value0(L.D(k))


@S_('gcd', 'any number of integers')
def _(c):
    L, v = intlist(c)
    c.gcd(IntVal(0), IntVal(0), contract=True)
    F = c.fold('gcd', iabs(v(IntVal(0))), lambda p, k: GCD(p, iabs(v(k + 1))))
    c.post(lambda R: [('gcd of all arguments', R.is_num(F(L.n - 1)))])


@S_('lcm', 'any number of integers')
def _(c):
    L, v = intlist(c)
    c.gcd(IntVal(0), IntVal(0), contract=True)
    F = c.fold('lcm', iabs(v(IntVal(0))), lambda p, k: TDIV(p, GCD(p, iabs(v(k + 1)))) * iabs(v(k + 1)))
    c.st.fact(AppFact(F, lambda k: Implies(And(k >= 0, k < L.n), And(F(k) >= 0, F(k) <= MAX)), 'lcms fit'))
    c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), v(t) != 0), 'non-zero'))
    c.post(lambda R: [('lcm of all arguments', R.is_num(F(L.n - 1)))])


def badarg(nm):
    def f(c):
        a, b = c.any('a'), c.any('b')
        c.assume(Not(And(c.is_(a.p, 'NUM'), c.is_(b.p, 'NUM'))))
        c.assume(Implies(c.is_(a.p, 'NUM'), a.p != 0))
        c.call(a, b)
        c.err()
    return f


for nm in ('gcd', 'lcm'):
    S_.add(nm, 'a non-integer is an error', badarg(nm))


@S_('expt', 'non-negative integer powers, exact whenever the result fits in 64 bits')
def _(c):
    a, b = c.num('a'), c.num('b')
    c.assume(b.v >= 1)
    c.call(a, b)
    P = c.fold('pow', a.v, lambda p, k: p * a.v)
    c.assume(P(b.v - 1) >= MIN, P(b.v - 1) <= MAX)
    c.st.fact(AppFact(P, lambda k: Implies(And(k >= 0, k < b.v), And(P(k) >= MIN, P(k) <= MAX, Implies(a.v == 0, P(k) == 0))), 'powers fit'))
    c.post(lambda R: [('power', R.is_num(P(b.v - 1)))])


@S_('expt', 'power zero is one')
def _(c):
    a, b = c.num('a'), c.num('b')
    c.assume(b.v == 0)
    c.call(a, b)
    c.post(lambda R: [('one', R.is_num(IntVal(1)))])


@S_('expt', 'a non-number is an error')
def _(c):
    a, b = c.any('a'), c.any('b')
    num = lambda o: c.is_(o.p, 'NUM', 'FLOAT', 'RATIO')
    c.assume(Not(And(num(a), num(b))))
    c.call(a, b)
    c.err()


def conform(G):
    import conform as cf
    import math
    r = G.rng
    big = G.ints()
    fit = cf.fits
    pool = [n for n in big if n != MIN]
    pairs = [(a, b) for a in pool for b in pool]
    if not G.thorough:
        pairs = r.sample(pairs, min(len(pairs), 260)) + [(a, b) for a in pool[:14] for b in pool[:14]]
    pairs += [(r.randint(-10 ** k, 10 ** k), r.randint(-10 ** j, 10 ** j)) for k in range(1, 18, 2) for j in range(1, 18, 2)]
    lit = lambda n: str(n)
    for a, b in pairs:
        for op, f in (('+', a + b), ('-', a - b), ('*', a * b)):
            if fit(f):
                G.case('(%s %d %d)' % (op, a, b), str(f))
        if b:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            G.case('(quotient %d %d)' % (a, b), str(q))
            G.case('(remainder %d %d)' % (a, b), str(a - q * b))
            G.case('(modulo %d %d)' % (a, b), str(a % b))
        G.case('(gcd %d %d)' % (a, b), str(math.gcd(a, b)))
        l = abs(a) * abs(b) // math.gcd(a, b) if a and b else 0
        if fit(l):
            G.case('(lcm %d %d)' % (a, b), str(l))
    for a in pool:
        G.case('(- %d)' % a, str(-a))
        G.case('(abs %d)' % a, str(abs(a)))
        G.case('(+ %d)' % a, str(a))
        G.case('(* %d)' % a, str(a))
        G.case('(gcd %d)' % a, str(abs(a)))
        G.case('(lcm %d)' % a, str(abs(a)))
        G.case('(expt %d 0)' % a, '1')
        G.case('(expt %d 1)' % a, str(a))
        for op in ('quotient', 'remainder', 'modulo'):
            G.err('(%s %d 0)' % (op, a))
    for a in list(range(-12, 13)) + [100, -100, 255, 1 << 15, -(1 << 20), 1 << 31, -(1 << 31)]:
        for e in range(0, 70):
            if abs(a) > 1 and e > 64:
                continue
            if fit(a ** e) and (e < 12 or r.random() < .5 or not fit(a ** (e + 1))):
                G.case('(expt %d %d)' % (a, e), str(a ** e))
    G.case('(+)', '0')
    G.case('(*)', '1')
    G.case('(gcd)', '0')
    G.case('(lcm)', '1')
    G.err('(-)')
    for k in range(G.n(60, 500)):
        xs = [r.randint(-10 ** r.randint(1, 9), 10 ** r.randint(1, 9)) for _ in range(r.randint(3, 9))]
        s = ' '.join(map(str, xs))
        G.case('(+ %s)' % s, str(sum(xs)))
        G.case('(- %s)' % s, str(xs[0] - sum(xs[1:])))
        G.case('(gcd %s)' % s, str(math.gcd(*xs)))
        ys = xs[:4]
        p = math.prod(ys)
        if fit(p):
            G.case('(* %s)' % ' '.join(map(str, ys)), str(p))
        zs = [r.randint(-30, 30) for _ in range(4)]
        G.case('(lcm %s)' % ' '.join(map(str, zs)), str(math.lcm(*zs)))
    for e, wr in cf.OBJS:
        if wr and re_num(wr):
            continue
        for op in ('+', '-', '*', 'quotient', 'modulo', 'remainder', 'gcd', 'lcm', 'expt'):
            G.err('(%s 3 %s)' % (op, e))
            G.err('(%s %s 3)' % (op, e))
        for op in ('+', '*'):
            G.err('(%s 1.5 %s)' % (op, e))
            G.err('(%s (/ 1 2) %s)' % (op, e))
        for op in ('-', 'abs'):
            G.err('(%s %s)' % (op, e))
    for x in ('1.5', '(/ 1 2)'):
        for op in ('quotient', 'modulo', 'remainder', 'gcd', 'lcm'):
            G.err('(%s 3 %s)' % (op, x))
            G.err('(%s %s 3)' % (op, x))


def re_num(s):
    import re
    return re.fullmatch(r'-?[0-9./]+', s) is not None
