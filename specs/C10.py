"""Strings: byte sequences of every length."""
from dsl import *
S_ = Specs()
j = z3.Int('jj')
CMP = {'=?': lambda a, b: a == b, '<?': lambda a, b: a < b, '>?': lambda a, b: a > b, '<=?': lambda a, b: a <= b, '>=?': lambda a, b: a >= b}


def code(x):
    """the code 0..255 of a stored byte"""
    return If(x >= 0, x, x + 256)


def fresh_str(c, r, n, at, p=None, kind='STR'):
    """the result is a new string of n characters with new contents"""
    st = 'SCM_String' if kind == 'STR' else 'SCM_Symbol'
    v = r.value if p is None else r.get('SCM.value', p)
    d = r.get(st + '.data', v)
    yield 'is a new %s' % ('string' if kind == 'STR' else 'symbol'), And(r.is_(kind), r.v >= c.A0), {}
    yield 'of its own', d >= c.A0, {}
    yield 'length', r.get(st + '.len', v) == n, {}
    yield 'every character', Implies(And(j >= 0, j < n), code(r.mem1(simp(d + j))) == code(at(j))), dict(idx=[j])
    yield 'terminated', r.mem1(simp(d + n)) == 0, dict(idx=[n])


# ---------------------------------------------------------------- length, reference, update
@S_('string-length', 'number of characters')
def _(c):
    s = c.str('s')
    c.call(s)
    c.post(lambda r: [('value', r.is_num(s.n))])


@S_('string-length', 'non-string is an error')
def _(c):
    c.call(c.not_('s', 'STR'))
    c.err()


@S_('string-ref', 'in range: the character stored there')
def _(c):
    s, k = c.str('s'), c.num('k')
    c.assume(k.v >= 0, k.v < s.n)
    c.call(s, k)
    c.post(lambda r: [('character', r.is_char(code(s.at(k.v))), dict(idx=[k.v]))])


@S_('string-ref', 'out of range is an error')
def _(c):
    s, k = c.str('s'), c.num('k')
    c.assume(Or(k.v < 0, k.v >= s.n))
    c.call(s, k)
    c.err()


@S_('string-ref', 'ill-typed is an error')
def _(c):
    s, k = c.any('s'), c.any('k')
    c.assume(Or(Not(c.is_(s.p, 'STR')), Not(c.is_(k.p, 'NUM'))))
    c.call(s, k)
    c.err()


@S_('string-set!', 'in range: changes exactly that character')
def _(c):
    s, k, x = c.str('s'), c.num('k'), c.char('x')
    c.assume(k.v >= 0, k.v < s.n)
    c.call(s, k, x)
    c.post(lambda r: [('the character is stored', code(r.mem1(s.d + k.v)) == x.v),
                      ('the others keep their values', Implies(And(j >= 0, j < s.n, j != k.v), r.mem1(s.d + j) == s.at(j)), dict(idx=[j]))])
    c.modifies([('mem1', s.d + k.v)])


@S_('string-set!', 'out of range is an error')
def _(c):
    s, k = c.str('s'), c.num('k')
    c.assume(Or(k.v < 0, k.v >= s.n))
    c.call(s, k, c.char('x'))
    c.err()


@S_('string-set!', 'ill-typed is an error')
def _(c):
    s, k, x = c.any('s'), c.any('k'), c.any('x')
    c.assume(Or(Not(c.is_(s.p, 'STR')), Not(c.is_(k.p, 'NUM')), Not(c.is_(x.p, 'CHAR'))))
    c.call(s, k, x)
    c.err()


# ---------------------------------------------------------------- construction
@S_('make-string', 'length and fill')
def _(c):
    k, x = c.num('k'), c.char('x')
    c.assume(k.v >= 0, k.v < (1 << 31) - 1)
    c.call(k, x)
    c.post(lambda r: list(fresh_str(c, r, k.v, lambda i: x.v)))


@S_('make-string', 'default fill: length')
def _(c):
    k = c.num('k')
    c.assume(k.v >= 0, k.v < (1 << 31) - 1)
    c.call(k)
    c.post(lambda r: list(fresh_str(c, r, k.v, lambda i: IntVal(32))))


@S_('make-string', 'a length that is negative or beyond the range of strings is an error')
def _(c):
    k = c.num('k')
    c.assume(Or(k.v < 0, k.v >= (1 << 31)))
    c.call(k, c.char('x'))
    c.err()


@S_('make-string', 'ill-typed is an error')
def _(c):
    k, x = c.any('k'), c.any('x')
    c.assume(Or(Not(c.is_(k.p, 'NUM')), Not(c.is_(x.p, 'CHAR'))))
    c.call(k, x)
    c.err()


def charlist(c, minlen=1):
    L = c.list_cells('args')
    c.st.fact(IdxFact(IntVal(0), L.n, lambda i: c.type0(L.D(i), 'CHAR'), 'characters'))
    c.assume(L.n < (1 << 31) - 1)
    return L


@S_('string', 'any number of characters, in order')
def _(c):
    L = charlist(c)
    c.args = [L.W(IntVal(0))]
    c.post(lambda r: list(fresh_str(c, r, L.n, lambda i: c.value0(L.D(i)))))


@S_('string', 'no characters: the empty string')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda r: list(fresh_str(c, r, IntVal(0), lambda i: IntVal(0))))


@S_('string', 'a non-character is an error')
def _(c):
    L = c.list_cells('args')
    w = z3.Int('w')
    c.assume(w >= 0, w < L.n, L.n < (1 << 31) - 1, Not(c.type0(L.D(w), 'CHAR')))
    c.st.addidx(w)
    c.st.fact(IdxFact(IntVal(0), w, lambda i: c.type0(L.D(i), 'CHAR'), 'characters before'))
    c.args = [L.W(IntVal(0))]
    c.err()


@S_('substring', 'the characters from start to end, in a new string')
def _(c):
    s, a, b = c.str('s'), c.num('a'), c.num('b')
    c.assume(a.v >= 0, a.v <= b.v, b.v <= s.n)
    c.call(s, a, b)
    c.post(lambda r: [(n, g, dict(idx=[j, simp(a.v + j)])) for n, g, k in fresh_str(c, r, simp(b.v - a.v), lambda i: s.at(simp(a.v + i)))])


@S_('substring', 'out of range is an error')
def _(c):
    s, a, b = c.str('s'), c.num('a'), c.num('b')
    c.assume(Not(And(a.v >= 0, a.v <= b.v, b.v <= s.n)))
    c.call(s, a, b)
    c.err()


@S_('substring', 'ill-typed is an error')
def _(c):
    s, a, b = c.any('s'), c.any('a'), c.any('b')
    c.assume(Or(Not(c.is_(s.p, 'STR')), Not(c.is_(a.p, 'NUM')), Not(c.is_(b.p, 'NUM'))))
    c.call(s, a, b)
    c.err()


def append_n(n):
    def f(c):
        ss = [c.str('s%d' % i) for i in range(n)]
        tot = IntVal(0)
        offs = []
        for s in ss:
            offs.append(tot)
            tot = simp(tot + s.n)
        c.assume(tot < (1 << 31) - 1)
        c.call(*ss)

        def at(i):
            v = IntVal(0)
            for s, o in reversed(list(zip(ss, offs))):
                v = If(i < o + s.n, s.at(simp(i - o)), v)
            return v
        c.post(lambda r: [(nm, g, dict(idx=[j] + [simp(j - o) for o in offs])) for nm, g, k in fresh_str(c, r, tot, at)])
    return f


for n in range(0, 3):
    S_.add('string-append', '%d strings of any length, in order' % n, append_n(n))
S_.add('string-append', '3 strings of any length, in order', append_n(3), _unroll=3)


@S_('string-append', 'a non-string is an error')
def _(c):
    L = c.list_cells('args')
    w = z3.Int('w')
    c.assume(w >= 0, w < L.n, Not(c.type0(L.D(w), 'STR')))
    c.st.addidx(w)
    c.st.fact(IdxFact(IntVal(0), w, lambda i: c.type0(L.D(i), 'STR'), 'strings before'))
    c.args = [L.W(IntVal(0))]
    c.err()


# ---------------------------------------------------------------- conversions
@S_('string->list', 'the characters in order, in new cells')
def _(c):
    s = c.str('s')
    c.call(s)

    def post(r):
        class E:
            @staticmethod
            def pred(ex, st, d, i):
                return [d > 0, ex.read(st, 'SCM.type', d) == T['CHAR'], ex.read(st, 'SCM.value', d) == code(s.at(i))]
        return r.list_is(s.n, E, fresh=True)
    c.post(post)


@S_('string->list', 'non-string is an error')
def _(c):
    c.call(c.not_('s', 'STR'))
    c.err()


@S_('list->string', 'the characters in order')
def _(c):
    l = c.lst('l')
    c.st.fact(IdxFact(IntVal(0), l.n, lambda i: c.type0(l.D(i), 'CHAR'), 'characters'))
    c.assume(l.n < (1 << 31) - 1)
    c.call(l)
    c.post(lambda r: list(fresh_str(c, r, l.n, lambda i: c.value0(l.D(i)))))


@S_('list->string', 'the empty list gives the empty string')
def _(c):
    c.call(c.nil())
    c.post(lambda r: list(fresh_str(c, r, IntVal(0), lambda i: IntVal(0))))


@S_('list->string', 'a non-character is an error')
def _(c):
    l = c.lst('l')
    w = z3.Int('w')
    c.assume(w >= 0, w < l.n, Not(c.type0(l.D(w), 'CHAR')))
    c.st.addidx(w)
    c.st.fact(IdxFact(IntVal(0), w, lambda i: c.type0(l.D(i), 'CHAR'), 'characters before'))
    c.call(l)
    c.err()


@S_('list->string', 'an improper list is an error')
def _(c):
    l = c.lst('l', dotted=True, minlen=2)
    c.st.fact(IdxFact(IntVal(0), simp(l.n + 1), lambda i: c.type0(l.D(i), 'CHAR'), 'characters'))
    c.call(l)
    c.err()


@S_('list->string', 'non-list is an error')
def _(c):
    c.call(c.not_('v', 'LIST', 'NIL'))
    c.err()


def copied(name, src, dst):
    def f(c):
        s = c.str('s', src)
        c.call(s)
        c.post(lambda r: list(fresh_str(c, r, s.n, s.at, kind=dst)))
    return f


S_.add('symbol->string', 'a new string of the characters of the name', copied('symbol->string', 'SYM', 'STR'))
S_.add('string->symbol', 'a symbol whose name is a copy of the string', copied('string->symbol', 'STR', 'SYM'))


@S_('symbol->string', 'non-symbol is an error')
def _(c):
    c.call(c.not_('s', 'SYM'))
    c.err()


@S_('string->symbol', 'non-string is an error')
def _(c):
    c.call(c.not_('s', 'STR'))
    c.err()


# ---------------------------------------------------------------- comparisons
def compare(op, ci, how):
    def f(c):
        a, b = c.str('a'), c.str('b')
        c.call(a, b)
        key = (lambda x: up(code(x))) if ci else code
        w = z3.Int('w')
        m = simp(If(a.n < b.n, a.n, b.n))
        if how == 'differ':
            c.assume(w >= 0, w < a.n, w < b.n, key(a.at(w)) != key(b.at(w)))
            c.st.addidx(w)
            c.st.fact(IdxFact(IntVal(0), w, lambda i: key(a.at(i)) == key(b.at(i)), 'common prefix'))
            ans = BoolVal(False) if op == '=?' else CMP[op](key(a.at(w)), key(b.at(w)))
        else:
            c.st.fact(IdxFact(IntVal(0), m, lambda i: key(a.at(i)) == key(b.at(i)), 'one is a prefix of the other'))
            ans = CMP[op](a.n, b.n)
        for o in (a, b):
            c.st.fact(IdxFact(IntVal(0), o.n, lambda i, o=o: And(o.at(i) >= -128, o.at(i) < 128), 'bytes'))
        c.st.addidx(a.n)
        c.st.addidx(b.n)
        c.post(lambda r: [('lexicographic order of the character codes', r.is_bool(ans), dict(idx=[w]))])
    return f


def badcmp(c):
    a, b = c.any('a'), c.any('b')
    c.assume(Not(And(c.is_(a.p, 'STR'), c.is_(b.p, 'STR'))))
    c.call(a, b)
    c.err()


for ci in (False, True):
    for op in CMP:
        nm = 'string%s%s' % ('-ci' if ci else '', op)
        S_.add(nm, 'strings with a first difference are ordered by it', compare(op, ci, 'differ'))
        S_.add(nm, 'a string is before every longer one it begins', compare(op, ci, 'prefix'))
        S_.add(nm, 'a non-string is an error', badcmp)


def conform(G):
    from conform import OBJS
    r = G.rng
    ALPHA = 'abcxyzABCXYZ019 _-'

    def rnd(n):
        return ''.join(r.choice(ALPHA) for _ in range(n))

    def odd(n):
        """codes of every kind, NUL and codes above 127 included"""
        return [r.choice([0, 1, 9, 32, 47, 48, 57, 58, 64, 65, 90, 91, 96, 97, 122, 123, 127, 128, 200, 255]) for _ in range(n)]
    ch = lambda k: '(integer->char %d)' % k
    mk = lambda ks: '(string %s)' % ' '.join(ch(k) for k in ks)
    codes = lambda e: '(map char->integer (string->list %s))' % e
    show = lambda ks: '(%s)' % ' '.join(map(str, ks))
    t = lambda b: '#t' if b else '#f'
    idx = lambda n: sorted({-1, 0, 1, n - 1, n, n + 1, n // 2, 1 << 31, 1 << 32, (1 << 32) + 1} | {i for i in G.hint if -3 <= i < n + 3})
    for n in G.lens(G.n(40, 120)):
        s = rnd(n)
        q = '"%s"' % s
        G.case('(string-length %s)' % q, str(n))
        G.case('(string->list %s)' % q, lambda g, s=s: True) if False else None
        G.case(codes(q), show(map(ord, s)))
        G.case('(list->string (string->list %s))' % q, q)
        G.case('(string-length (make-string %d #\\z))' % n, str(n))
        G.case('(make-string %d #\\z)' % n, '"%s"' % ('z' * n))
        G.case('(string-length (make-string %d))' % n, str(n))
        ks = odd(n)
        G.case(codes(mk(ks)), show(ks))
        G.case(codes('(list->string (list %s))' % ' '.join(map(ch, ks))), show(ks))
        G.case(codes('(symbol->string (string->symbol %s))' % q), show(map(ord, s))) if n else None
        for k in idx(n):
            ok = 0 <= k < n
            G.case('(char->integer (string-ref %s %d))' % (mk(ks), k), str(ks[k]) if ok else 'ERR') if ok else G.err('(string-ref %s %d)' % (mk(ks), k))
            if ok:
                k2 = list(ks)
                k2[k] = 201
                G.case('(let ((s %s)) (string-set! s %d %s) %s)' % (mk(ks), k, ch(201), codes('s')), show(k2))
            else:
                G.err('(let ((s %s)) (string-set! s %d #\\a))' % (mk(ks), k))
        for a in sorted({0, 1, n // 2, n, n + 1, -1}):
            for b in sorted({0, n // 2, n - 1, n, n + 1}):
                e = '(substring %s %d %d)' % (mk(ks), a, b)
                if 0 <= a <= b <= n:
                    G.case(codes(e), show(ks[a:b]))
                else:
                    G.err(e)
        parts = [odd(r.randrange(0, 5)) for _ in range(min(n, 12))]
        G.case(codes('(string-append %s)' % ' '.join(map(mk, parts))), show(sum(parts, [])))
        G.case('(let* ((a %s) (b (string-append a))) (if (= 0 (string-length b)) 0 (string-set! b 0 #\\q)) %s)' % (mk(ks), codes('a')), show(ks))
        G.case('(let* ((a %s) (b (substring a 0 %d))) (if (= 0 (string-length b)) 0 (string-set! b 0 #\\q)) %s)' % (mk(ks), n, codes('a')), show(ks))
        G.case('(let* ((a %s) (b (string->symbol a))) (string-set! a 0 #\\q) (eq? b (string->symbol a)))' % q, t(s[0] == 'q')) if n else None
    import itertools
    UPC = lambda k: k - 32 if 97 <= k <= 122 else k
    pool = [[], [97], [65], [98], [97, 0], [97, 0, 98], [97, 0, 99], [200], [127], [97, 98], [97, 66], [0], [123], [91], [90, 90]] + [odd(r.randrange(1, 6)) for _ in range(G.n(6, 20))]
    base = odd(30)
    for i in (0, 7, 29):
        b2 = list(base)
        b2[i] = (b2[i] + 1) % 256
        pool += [base, b2, base[:i]]
    import operator as o
    OPS = {'=?': o.eq, '<?': o.lt, '>?': o.gt, '<=?': o.le, '>=?': o.ge}
    pairs = list(itertools.product(range(len(pool)), repeat=2))
    r.shuffle(pairs)
    for a, b in pairs[:G.n(140, 600)]:
        x, y = pool[a], pool[b]
        ops = list(OPS)
        G.case('(let ((x %s) (y %s)) (list %s))' % (mk(x), mk(y), ' '.join('(string%s x y)' % k for k in ops)), '(%s)' % ' '.join(t(OPS[k](x, y)) for k in ops))
        G.case('(let ((x %s) (y %s)) (list %s))' % (mk(x), mk(y), ' '.join('(string-ci%s x y)' % k for k in ops)), '(%s)' % ' '.join(t(OPS[k](list(map(UPC, x)), list(map(UPC, y)))) for k in ops))
    for x, _ in OBJS:
        isstr = x.startswith('"') or x.startswith('(string')
        if not isstr and 'string' not in x:
            for e in ('(string-length x)', '(string-ref x 0)', '(string-set! x 0 #\\a)', '(substring x 0 0)', '(string->list x)', '(string-append "a" x)', '(string=? x "a")', '(string<? "a" x)', '(string-ci>? x "a")', '(string->symbol x)'):
                G.err('(let ((x %s)) %s)' % (x, e))
    for e in ("(list->string '(#\\a 1))", "(list->string '(#\\a . #\\b))", '(list->string 5)', '(string #\\a 5)', '(make-string -1)', '(make-string 2.5)', '(make-string 3 4)', '(make-string 2147483648)', '(make-string 4294967299 #\\a)', '(string-ref "abc" 1.0)', "(symbol->string \"a\")"):
        G.err(e)
    for n in (5000, 70000):
        G.case('(string-length (make-string %d #\\a))' % n, str(n))
        G.case('(string-length (string-append (make-string %d #\\a) (make-string 7 #\\b)))' % n, str(n + 7))
        G.case('(let ((s (make-string %d #\\a))) (string-set! s %d #\\b) (list (char->integer (string-ref s %d)) (char->integer (string-ref s %d))))' % (n, n - 1, n - 1, n - 2), '(98 97)')
        G.case('(length (string->list (make-string %d #\\a)))' % n, str(n))
