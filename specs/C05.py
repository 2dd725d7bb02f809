from dsl import *
from evalmodel import opaque as oq
S_ = Specs()
SE, NE_, LE_, VE_, EQ, NU = 'C:_sym_eq/2', 'C:_number_eq/2', 'C:_list_equal/2', 'C:_vector_equal/2', 'C:_equal_recursive/2', ('NUM', 'FLOAT', 'RATIO')
REL = {k: z3.Function('rel_' + k, I, I, z3.BoolSort()) for k in ('number', 'name', 'list', 'vector', 'equal')}


def relation(c, fn, k):
    """a pure relation of two objects, given by the contract of its function"""
    def h(ex, st, args, ins, f):
        a = [simp(ex.ptrval(x)) for x in args]
        return [('ret', st, REL[k](*a), '')]
    c.ex.builtins[fn] = h


def rel(k, a, b):
    return REL[k](P(a), P(b))


IDENT = ('VECTOR', 'PROC', 'CONT', 'FUNC', 'MACRO', 'HASH_TABLE', 'PORT', 'PROMISE', 'MODULE', 'VARIABLE')


def byte(c, p):
    v = c.value0(P(p))
    return v % 256


def same(c, a, b, deep):
    """the answer, from the kinds of the two objects"""
    A_, B_ = P(a), P(b)
    both = lambda *ts: And(c.type0(A_, *ts), c.type0(B_, *ts))
    kind = lambda *ts: And(c.type0(A_, *ts), c.get('SCM.type', A_) == c.get('SCM.type', B_))
    mixed = Or(And(c.type0(A_, 'NUM'), c.type0(B_, 'FLOAT')), And(c.type0(A_, 'FLOAT'), c.type0(B_, 'NUM')))
    return If(A_ == B_, True, If(Or(mixed, kind(*NU)), rel('number', a, b), If(c.get('SCM.type', A_) != c.get('SCM.type', B_), False,
           If(c.type0(A_, 'NONE', 'NIL'), True, If(c.type0(A_, 'LIST'), rel('list', a, b) if deep else c.value0(A_) == c.value0(B_),
           If(c.type0(A_, 'VECTOR') if deep else BoolVal(False), rel('vector', a, b),
           If(c.type0(A_, 'CHAR'), byte(c, a) == byte(c, b), If(c.type0(A_, 'BOOL'), (c.value0(A_) == 0) == (c.value0(B_) == 0),
           If(c.type0(A_, 'SYM', 'STR'), rel('name', a, b), False)))))))))


def grade(deep):
    def f(c):
        relation(c, '_number_eq', 'number')
        relation(c, '_sym_eq', 'name')
        relation(c, '_list_equal', 'list')
        relation(c, '_vector_equal', 'vector')
        a, b = c.any('a'), c.any('b')
        c.assume(Not(c.type0(a.p, 'SMOB')))
        c.call(a, b)
        c.post(lambda r: [('the answer', r.is_bool(same(c, a, b, deep)))])
        c.modifies(lambda R: [])
    return f


for _n in ('eq?', 'eqv?'):
    S_.add(_n, 'any two objects: atoms by content, pairs by location, other structures by identity; never fails', grade(False))
S_.add('equal?', 'any two objects: atoms by content, lists and vectors by their elements, other structures by identity', grade(True))


# ---------------------------------------------------------------- names and strings
def names(kind, how):
    def f(c):
        a, b = c.str('a', kind), c.str('b', kind)
        c.args = [a.p, b.p]
        c.modifies(lambda R: [])
        w = z3.Int('w')
        c.st.addidx(w)
        cs = 'SCM_String' if kind == 'STR' else 'SCM_Symbol'
        if kind == 'SYM':
            for o in (a, b):
                c.st.fact(IdxFact(IntVal(0), o.n, lambda j, o=o: o.at(j) != 0, 'no NUL in a name'))
                c.assume(o.at(o.n) == 0)
        if how == 'same':
            c.assume(a.n == b.n)
            c.st.fact(IdxFact(IntVal(0), a.n, lambda j: a.at(j) == b.at(j), 'same bytes'))
            c.st.addidx(a.n)
        elif how == 'length':
            c.assume(a.n != b.n)
            c.st.addidx(a.n)
            c.st.addidx(b.n)
        else:
            c.assume(w >= 0, w < a.n, w < b.n, a.at(w) != b.at(w), a.n == b.n)
        c.post(lambda r: [('the answer', r.v == BoolVal(how == 'same') if z3.is_bool(r.v) else (r.v != 0) == BoolVal(how == 'same'))])
    return f


for _k, _n in (('STR', 'strings'), ('SYM', 'symbols')):
    S_.add(SE, '%s of the same bytes are the same' % _n, names(_k, 'same'))
    S_.add(SE, '%s of different lengths differ' % _n, names(_k, 'length'))
    S_.add(SE, '%s that differ in a byte differ' % _n, names(_k, 'byte'))


# ---------------------------------------------------------------- structures
def answer(r, b):
    return [('the answer', r.v == b if z3.is_bool(r.v) else (r.v != 0) == b)]


def vectors(how):
    def f(c):
        relation(c, '_equal_recursive', 'equal')
        a, b = c.vec('a'), c.vec('b')
        c.args = [a.p, b.p]
        c.modifies(lambda R: [])
        w = z3.Int('w')
        c.st.addidx(w)
        if how == 'length':
            c.assume(a.n != b.n)
        else:
            c.assume(a.n == b.n)
            if how == 'same':
                c.st.fact(IdxFact(IntVal(0), a.n, lambda j: REL["equal"](c.mem8(a.e + 8 * j), c.mem8(b.e + 8 * j)), 'equal elements'))
            else:
                c.assume(w >= 0, w < a.n, Not(REL["equal"](c.mem8(a.e + 8 * w), c.mem8(b.e + 8 * w))))
        c.post(lambda r: answer(r, BoolVal(how == 'same')))
    return f


S_.add(VE_, 'vectors of the same length with equal elements are equal', vectors('same'))
S_.add(VE_, 'vectors of different lengths differ', vectors('length'))
S_.add(VE_, 'vectors with a position whose elements are not equal differ', vectors('element'))


def lists(how, da, db):
    def f(c):
        relation(c, '_equal_recursive', 'equal')
        a, b = c.lst('a', dotted=da, minlen=2 if da else 1), c.lst('b', dotted=db, minlen=2 if db else 1)
        c.args = [a.p, b.p]
        c.modifies(lambda R: [])
        w = z3.Int('w')
        c.st.addidx(w)
        e = lambda j: REL['equal'](a.D(j), b.D(j))
        pre = lambda n: c.st.fact(IdxFact(IntVal(0), n, e, 'equal elements'))
        if da != db:
            # the tails are compared by equal?, which tells lists from other objects
            c.st.fact(IdxFact(IntVal(0), simp(a.n + b.n), lambda j: BoolVal(True), ''))
        if how == 'length':
            c.assume(a.n != b.n)
        else:
            c.assume(a.n == b.n)
            if how == 'same':
                pre(a.n)
            else:
                c.assume(w >= 0, w < a.n, Not(e(w)))
        c.post(lambda r: answer(r, BoolVal(how == 'same')))
    return f


S_.add(LE_, 'lists of the same length with equal elements are equal', lists('same', False, False))
S_.add(LE_, 'lists of different lengths differ', lists('length', False, False))
S_.add(LE_, 'lists with a position whose elements are not equal differ', lists('element', False, False))
S_.add(LE_, 'improper lists of the same length with equal elements and tails are equal', lists('same', True, True))
S_.add(LE_, 'improper lists with a position whose elements are not equal differ', lists('element', True, True))


# ---------------------------------------------------------------- searches
def boolobj(c, fn, k):
    """a predicate answering a boolean object, by its contract"""
    def h(ex, st, args, ins, f):
        a = [simp(ex.ptrval(x)) for x in args]
        g = REL[k](*a)
        out = []
        for cond, nm in ((g, 'bool_true'), (Not(g), 'bool_false')):
            if ex.pv.feasible(st, (cond,)):
                s = st.fork()
                s.assume(cond)
                out.append(('ret', s, z3.Int('OBJ_' + nm), ''))
        return out
    c.ex.builtins[fn] = h


REL.update({k: z3.Function('rel_' + k, I, I, z3.BoolSort()) for k in ('eq', 'eqv')})
GRADE = {'q': 'eq', 'v': 'eqv', 'ber': 'equal', 'oc': 'equal'}


def relations(c):
    boolobj(c, 'scm_c_is_eq', 'eq')
    boolobj(c, 'scm_c_is_eqv', 'eqv')
    boolobj(c, 'scm_c_is_equal', 'equal')
    relation(c, '_eq', 'equal')
    relation(c, '_equal_recursive', 'equal')


def member(g, found, dotted=False):
    def f(c):
        relations(c)
        x, l = c.any('x'), c.lst('l', dotted=dotted, minlen=2 if dotted else 1)
        c.call(x, l)
        R = lambda j: REL[g](x.p, l.D(j))
        c.st.fact(AppFact(l.D, lambda t: REL[g](x.p, l.D(t)) == REL[g](l.D(t), x.p), 'symmetric'))
        w = z3.Int('w')
        if found:
            c.st.addidx(w)
            c.assume(w >= 0, w < l.n - (1 if dotted else 0), R(w))
            c.st.fact(IdxFact(IntVal(0), w, lambda j: Not(R(j)), 'not before'))
            c.post(lambda r: [('a list', r.get('SCM.type', r.v) == T['LIST']), ('that begins at the first such element', r.get('SCM.value', r.v) == l.W(w))])
        else:
            c.st.fact(IdxFact(IntVal(0), l.n, lambda j: Not(R(j)), 'nowhere'))
            c.post(lambda r: [('#f', r.is_bool(BoolVal(False)))])
    return f


class Alist:
    """a list in which some elements are pairs with keys"""

    def __init__(self, c, name='alist'):
        self.o = l = c.lst(name)
        self.n, self.D = l.n, l.D
        K, C = self.K, self.C = [z3.Function('%s_%s' % (name, k), I, I) for k in ('key', 'cell')]
        IDXDECLS.update([K.get_id(), C.get_id()])
        ini = lambda k, a: Select(z3.Const(k + '@0', ARR), a)
        self.pair = lambda t: c.type0(l.D(t), 'LIST')
        c.st.fact(AppFact(l.D, lambda t: Implies(And(t >= 0, t < l.n, c.type0(l.D(t), 'LIST')), And(
            c.value0(l.D(t)) == C(t), C(t) > 0, C(t) < c.A0, ini('SCM_List.data', C(t)) == K(t), K(t) > 0, K(t) < c.A0)), 'entries'))


def assoc(g, found):
    def f(c):
        relations(c)
        if g == 'eq':
            relation(c, 'is_eq_pointer', 'eq')
        x, l = c.any('x'), Alist(c)
        c.call(x, l.o)
        c.modifies(lambda R: [])
        R = lambda j: And(l.pair(j), REL[g](x.p, l.K(j)))
        c.st.fact(AppFact(l.K, lambda t: REL[g](x.p, l.K(t)) == REL[g](l.K(t), x.p), 'symmetric'))
        w = z3.Int('w')
        if found:
            c.st.addidx(w)
            c.assume(w >= 0, w < l.n, R(w))
            c.st.fact(IdxFact(IntVal(0), w, lambda j: Not(R(j)), 'not before'))
            c.post(lambda r: [('the first entry with that key', r.v == l.D(w))])
        else:
            c.st.fact(IdxFact(IntVal(0), l.n, lambda j: Not(R(j)), 'nowhere'))
            c.post(lambda r: [('#f', r.is_bool(BoolVal(False)))])
    return f


for _n, _g in (('memq', 'eq'), ('memv', 'eqv'), ('member', 'equal'), ('assq', 'eq'), ('assv', 'eqv'), ('assoc', 'equal')):
    _f = member if _n[0] == 'm' else assoc
    S_.add(_n, '%s: the first match' % _n, _f(_g, True))
    S_.add(_n, '%s: #f when nothing matches' % _n, _f(_g, False))
    if _n[0] == 'm':
        S_.add(_n, '%s: the first match in an improper list' % _n, _f(_g, True, True))

    def _e(c):
        relations(c)
        c.call(c.any('x'), c.nil())
        c.post(lambda r: [('#f', r.is_bool(BoolVal(False)))])
    S_.add(_n, '%s: nothing in the empty list' % _n, _e)

    def _e(c):
        relations(c)
        c.call(c.any('x'), c.not_('l', 'LIST', 'NIL'))
        c.err()
    S_.add(_n, '%s: anything but a list is an error' % _n, _e)


@S_('C:is_eq_pointer/2', 'the comparison of assq: eq?, but strings by identity')
def _(c):
    relations(c)
    a, b = c.any('a'), c.any('b')
    c.args = [a.p, b.p]
    c.modifies(lambda R: [])
    w = If(a.p == b.p, True, If(c.get('SCM.type', a.p) != c.get('SCM.type', b.p), False, If(c.type0(a.p, 'STR'), c.value0(a.p) == c.value0(b.p), REL['eq'](a.p, b.p))))
    c.post(lambda r: answer(r, w))


def conform(G):
    r = G.rng
    E = 'ERR'

    class Ob:
        """a datum: printed expression, structure"""

    def atom():
        k = r.randrange(9)
        if k == 0:
            n = r.choice([0, 1, 2, -1, 7, 255, 256, 65536, 4294967296, 4294967297, -4294967296, 9007199254740993, r.randrange(-999, 999)])
            return ('num', n, str(n))
        if k == 1:
            n = r.choice([0.5, 1.5, -0.5, 2.25, 1.0, 0.0, 7.0])
            return ('num', n, repr(n))
        if k == 2:
            s = r.choice(['', 'a', 'ab', 'abc', 'abd', 'A', 'a b', 'b'])
            return ('str', s, '"%s"' % s)
        if k == 3:
            s = r.choice(['a', 'ab', 'abc', 'abd', 'b', 'x', 'quote-it'])
            return ('sym', s, s)
        if k == 4:
            s = r.choice(['a', 'b', 'A', 'space', '0', 'newline'])
            return ('chr', s, '#\\' + s)
        if k == 5:
            s = r.choice(['#t', '#f'])
            return ('bool', s, s)
        if k == 6:
            return ('nil', (), '()')
        return ('num', r.randrange(0, 4), None)

    def fix(d):
        return d if d[2] is not None else (d[0], d[1], str(d[1]))

    def datum(depth=2):
        k = r.randrange(10)
        if depth == 0 or k < 5:
            return fix(atom())
        es = [datum(depth - 1) for _ in range(r.randrange(1, 4))]
        if k < 8:
            return ('list', (es, None), '(%s)' % ' '.join(e[2] for e in es))
        if k == 8:
            t = fix(atom())
            if t[0] == 'nil':
                return ('list', (es, None), '(%s)' % ' '.join(e[2] for e in es))
            return ('list', (es, t), '(%s . %s)' % (' '.join(e[2] for e in es), t[2]))
        return ('vec', es, '#(%s)' % ' '.join(e[2] for e in es))

    def eqv(a, b):
        return a[0] == b[0] and a[0] not in ('list', 'vec') and a[1] == b[1]

    def equal(a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'list':
            (x, t), (y, u) = a[1], b[1]
            return len(x) == len(y) and all(equal(p, q) for p, q in zip(x, y)) and ((t is None and u is None) or (t is not None and u is not None and equal(t, u)))
        if a[0] == 'vec':
            return len(a[1]) == len(b[1]) and all(equal(p, q) for p, q in zip(a[1], b[1]))
        return a[1] == b[1]
    q = lambda d: "'" + d[2]
    tf = lambda b: '#t' if b else '#f'

    def vary(d):
        """the same, or a little different"""
        if r.randrange(3) == 0:
            return datum(1)
        if d[0] == 'list':
            es, t = list(d[1][0]), d[1][1]
            k = r.randrange(5)
            if k == 0:
                es[r.randrange(len(es))] = datum(1)
            elif k == 1:
                es.append(datum(0))
            elif k == 2 and len(es) > 1:
                es.pop(r.randrange(len(es)))
            elif k == 3 and t is None and len(es) > 1 and es[-1][0] not in ('list', 'nil'):
                t = es.pop()
            else:
                i = r.randrange(len(es))
                es[i] = vary(es[i])
            return ('list', (es, t), '(%s%s)' % (' '.join(e[2] for e in es), ' . ' + t[2] if t else ''))
        if d[0] == 'vec' and d[1]:
            es = list(d[1])
            i = r.randrange(len(es))
            es[i] = vary(es[i])
            return ('vec', es, '#(%s)' % ' '.join(e[2] for e in es))
        return d
    for _ in range(G.n(1200, 12000)):
        a = datum(3)
        b = a if r.randrange(2) else vary(a)
        G.case("(list (eq? %s %s) (eqv? %s %s) (equal? %s %s) (equal? %s %s))" % (q(a), q(b), q(a), q(b), q(a), q(b), q(b), q(a)),
               '(%s %s %s %s)' % (tf(eqv(a, b)), tf(eqv(a, b)), tf(equal(a, b)), tf(equal(a, b))))
        G.case("(let* ((x %s) (y x) (l (list x))) (list (eq? x y) (eqv? x (car l)) (equal? x y)))" % q(a), '(#t #t #t)')

    vs = ['(vector)', '(vector 1)', '(vector 1 2)', '(vector 1 2 3)', '(vector 1 2 4)', '(vector 2 2)', '(vector (vector))', '(vector (vector 1))', "(vector '())", '(make-vector 70 1)',
          '(make-vector 71 1)', "'()", "'(1)", "'(1 2)", '""', '"1"', "(list (vector))", "(list (vector 1))", "(list (vector 1) 2)", "(cons (vector) 1)"]
    for i, a in enumerate(vs):
        for j, b in enumerate(vs):
            G.case('(list (equal? %s %s) (eqv? %s %s))' % (a, b, a, b), '(%s %s)' % (tf(i == j), tf(i == j and a in ("'()", '""', '"1"'))))

    def w(d):
        return d[2]
    for _ in range(G.n(900, 9000)):
        es = [datum(2) for _ in range(r.randrange(0, 7))]
        x = r.choice(es) if es and r.randrange(3) else datum(1)
        if es and r.randrange(4) == 0:
            x = vary(x)
        l = '(%s)' % ' '.join(w(e) for e in es)
        for fn, g in (('memq', eqv), ('memv', eqv), ('member', equal)):
            k = next((i for i, e in enumerate(es) if g(x, e)), None)
            got = "(let* ((l '%s) (m (%s %s l))) (if m (length m) #f))" % (l, fn, q(x))
            G.case(got, tf(False) if k is None else str(len(es) - k))
        ps = [(e, fix(atom())) if r.randrange(6) else e for e in es]
        al = '(%s)' % ' '.join('(%s . %s)' % (w(p[0]), w(p[1])) if len(p) == 2 else w(p) for p in ps)
        keys = [p[0] if len(p) == 2 else (p[1][0][0] if p[0] == 'list' else None) for p in ps]
        for fn, g in (('assq', eqv), ('assv', eqv), ('assoc', equal)):
            if fn == 'assq' and (x[0] == 'str' or any(e and e[0] == x[0] == 'num' and type(e[1]) is not type(x[1]) for e in keys)):
                continue    # assq: strings by identity, no exact number is an inexact one
            k = next((i for i, e in enumerate(keys) if e is not None and g(x, e)), None)
            G.case("(let* ((al '%s) (p (%s %s al))) (if p (let loop ((l al) (i 0)) (if (eq? (car l) p) i (loop (cdr l) (+ i 1)))) #f))" % (al, fn, q(x)), tf(False) if k is None else str(k))
    # identity
    for mk in ('(list 1 2)', '(cons 1 2)', '(vector 1)', '(lambda () 1)', '(make-hash-table)', '(delay 1)', '(open-input-string "x")', '(make-variable 1)'):
        for p in ('eq?', 'eqv?'):
            G.case("(let ((x %s)) (%s x x))" % (mk, p), '#t')
            G.case("(%s %s %s)" % (p, mk, mk), '#f')
            G.case("(%s %s 'a)" % (p, mk), '#f')
            G.case("(let ((x %s)) (%s (car (list x)) (vector-ref (vector x) 0)))" % (mk, p), '#t')
    for p in ('eq?', 'eqv?', 'equal?'):
        G.case("(let ((l (list 1 2 3))) (list (%s (cdr l) (cdr l)) (%s (cddr l) (cdr (cdr l))) (%s (memv 2 l) (cdr l)) (%s l (cons 1 (cdr l)))))" % (p, p, p, p), '(#t #t #t %s)' % tf(p == 'equal?'))
        G.case("(%s car car)" % p, '#t')
        G.case("(%s car cdr)" % p, '#f')
        G.case("(call/cc (lambda (k) (%s k k)))" % p, '#t')
    G.case("(let ((a (make-string 3 #\\a)) (b (make-string 3 #\\a))) (string-set! a 1 (integer->char 0)) (string-set! b 1 (integer->char 0)) (string-set! b 2 #\\b) (list (equal? a b) (equal? a a)))", '(#f #t)')
    for fn in ('memq', 'memv', 'member', 'assq', 'assv', 'assoc'):
        for bad in ('5', "'a", '"s"', '(vector)', '#t'):
            G.case("(%s 1 %s)" % (fn, bad), E)
        G.case("(%s 1 '())" % fn, '#f')
        G.case("(%s 1)" % fn, E)
    G.case("(let* ((l (list 1 2 3)) (m (member 2 l))) (set-car! m 9) l)", '(1 9 3)')
    G.case("(let* ((l (list (cons 'a 1) (cons 'b 2))) (p (assq 'b l))) (set-cdr! p 5) l)", '((a . 1) (b . 5))')
