from dsl import *
S_ = Specs()
j = z3.Int('jj')


def vec_ok(fn):
    return fn


@S_('vector-length', 'result is the length')
def _(c):
    v = c.vec('v')
    c.call(v)
    c.post(lambda r: [('value', r.is_num(v.n))])


@S_('vector-length', 'non-vector is an error')
def _(c):
    c.call(c.not_('v', 'VECTOR'))
    c.err()


@S_('vector-ref', 'in range: the stored element itself')
def _(c):
    v, k = c.vec('v'), c.num('k')
    c.assume(k.v >= 0, k.v < v.n)
    c.call(v, k)
    c.post(lambda r: [('element', r.v == c.mem8(v.e + 8 * k.v))])


@S_('vector-ref', 'out of range is an error')
def _(c):
    v, k = c.vec('v'), c.num('k')
    c.assume(Or(k.v < 0, k.v >= v.n))
    c.call(v, k)
    c.err()


@S_('vector-ref', 'non-vector is an error')
def _(c):
    c.call(c.not_('v', 'VECTOR'), c.any('k'))
    c.err()


@S_('vector-ref', 'non-integer index is an error')
def _(c):
    c.call(c.vec('v'), c.not_('k', 'NUM'))
    c.err()


@S_('vector-set!', 'in range: updates exactly that slot')
def _(c):
    v, k, x = c.vec('v'), c.num('k'), c.any('x')
    c.assume(k.v >= 0, k.v < v.n)
    c.call(v, k, x)
    c.post(lambda r: [('slot holds the new value', r.mem8(v.e + 8 * k.v) == x.p),
                      ('other slots keep their values', Implies(And(j >= 0, j < v.n, j != k.v), r.mem8(v.e + 8 * j) == c.mem8(v.e + 8 * j)))])
    c.modifies([('mem8', v.e + 8 * k.v)])


@S_('vector-set!', 'out of range is an error')
def _(c):
    v, k = c.vec('v'), c.num('k')
    c.assume(Or(k.v < 0, k.v >= v.n))
    c.call(v, k, c.any('x'))
    c.err()


@S_('vector-set!', 'ill-typed is an error')
def _(c):
    v, k = c.any('v'), c.any('k')
    c.assume(Or(Not(c.is_(v.p, 'VECTOR')), Not(c.is_(k.p, 'NUM'))))
    c.call(v, k, c.any('x'))
    c.err()


@S_('make-vector', 'length and fill')
def _(c):
    k, x = c.num('k'), c.any('x')
    c.assume(k.v >= 0, k.v < (1 << 31))
    c.call(k, x)
    c.post(lambda r: [('is a fresh vector', And(r.is_('VECTOR'), r.v >= c.A0)), ('length', r.get('SCM_Vector.length', r.value) == k.v),
                      ('every element is the fill', Implies(And(j >= 0, j < k.v), r.mem8(r.get('SCM_Vector.elements', r.value) + 8 * j) == x.p), dict(idx=[j]))])


@S_('make-vector', 'default fill: length')
def _(c):
    k = c.num('k')
    c.assume(k.v >= 0, k.v < (1 << 31))
    c.call(k)
    c.post(lambda r: [('is a fresh vector', And(r.is_('VECTOR'), r.v >= c.A0)), ('length', r.get('SCM_Vector.length', r.value) == k.v),
                      ('every element is a valid object', Implies(And(j >= 0, j < k.v), r.mem8(r.get('SCM_Vector.elements', r.value) + 8 * j) != 0), dict(idx=[j]))])


@S_('make-vector', 'negative length is an error')
def _(c):
    k = c.num('k')
    c.assume(k.v < 0)
    c.call(k, c.any('x'))
    c.err()


@S_('make-vector', 'non-integer length is an error')
def _(c):
    c.call(c.not_('k', 'NUM'), c.any('x'))
    c.err()


def vector_n(n):
    def f(c):
        xs = [c.any('x%d' % i) for i in range(n)]
        c.call(*xs)
        c.post(lambda r: [('is a fresh vector', And(r.is_('VECTOR'), r.v >= c.A0)), ('length', r.get('SCM_Vector.length', r.value) == n)] +
               [('element %d' % i, r.mem8(r.get('SCM_Vector.elements', r.value) + 8 * i) == x.p) for i, x in enumerate(xs)])
    return f


for n in range(0, 4):
    S_.add('vector', '%d arguments' % n, vector_n(n))


@S_('vector', 'any number of arguments')
def _(c):
    L = c.list_cells('args')
    c.args = [L.W(IntVal(0))]
    c.post(lambda r: [('is a fresh vector', And(r.is_('VECTOR'), r.v >= c.A0)), ('length', r.get('SCM_Vector.length', r.value) == L.n),
                      ('elements in order', Implies(And(j >= 0, j < L.n), r.mem8(r.get('SCM_Vector.elements', r.value) + 8 * j) == L.D(j)), dict(idx=[j]))])


@S_('vector->list', 'same elements in order, fresh cells')
def _(c):
    v = c.vec('v')
    c.call(v)
    c.post(lambda r: r.list_is(v.n, lambda i: c.mem8(v.e + 8 * i), fresh=True))


@S_('vector->list', 'non-vector is an error')
def _(c):
    c.call(c.not_('v', 'VECTOR'))
    c.err()


@S_('list->vector', 'same elements in order')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: [('is a fresh vector', And(r.is_('VECTOR'), r.v >= c.A0)), ('length', r.get('SCM_Vector.length', r.value) == l.n),
                      ('elements in order', Implies(And(j >= 0, j < l.n), r.mem8(r.get('SCM_Vector.elements', r.value) + 8 * j) == l.D(j)), dict(idx=[j]))])


@S_('list->vector', 'empty list')
def _(c):
    c.call(c.nil())
    c.post(lambda r: [('is a vector', r.is_('VECTOR')), ('length 0', r.get('SCM_Vector.length', r.value) == 0)])


@S_('list->vector', 'non-list is an error')
def _(c):
    c.call(c.not_('v', 'LIST', 'NIL'))
    c.err()


def conform(G):
    from conform import OBJS
    for x, _ in OBJS:
        for e in ('(vector-ref (vector x 1) 0)', '(vector-ref (vector 1 x) 1)', '(vector-ref (make-vector 3 x) 2)', '(vector-ref (make-vector 3 x) 0)', '(let ((v (make-vector 3 0))) (vector-set! v 1 x) (vector-ref v 1))', '(cadr (vector->list (vector 1 x)))', '(car (vector->list (make-vector 2 x)))', '(vector-ref (list->vector (list 1 x)) 1)', '(vector-ref (list->vector (list x)) 0)'):
            G.case('(let ((x %s)) (eq? x %s))' % (x, e), '#t')
    from conform import w, q, Vec, Sym, ERR
    r = G.rng
    objs = [0, -1, 7, True, False, Sym('a'), 'str', [1, 2], []]

    def els(n):
        return [r.choice(objs) for _ in range(n)]

    def vq(v):
        return '(vector %s)' % ' '.join(q(x) for x in v)
    idx = lambda n: sorted({-1, 0, 1, n - 1, n, n + 1, n // 2, -(1 << 31), 1 << 31, 1 << 32, (1 << 32) + 1} | {i for i in G.hint if -3 <= i < n + 3})
    for n in G.lens(G.n(60, 200)):
        v = els(n)
        G.case('(vector-length %s)' % vq(v), w(n))
        G.case('(vector->list %s)' % vq(v), w(v))
        G.case('(list->vector (list %s))' % ' '.join(q(x) for x in v), w(Vec(v)))
        G.case('(make-vector %d 9)' % n, w(Vec([9] * n)))
        for k in idx(n):
            ok = 0 <= k < n
            G.case('(vector-ref %s %d)' % (vq(v), k), w(v[k]) if ok else ERR)
            nv = list(v)
            if ok:
                nv[k] = Sym('new')
            G.case("(let ((v %s)) (vector-set! v %d 'new) v)" % (vq(v), k), w(Vec(nv)) if ok else ERR)
    for n in (2000, 70000):
        G.case('(vector-length (make-vector %d 0))' % n, w(n))
        G.case('(let ((v (make-vector %d 0))) (vector-set! v %d 5) (list (vector-ref v %d) (vector-ref v %d)))' % (n, n - 1, n - 1, n - 2), w([5, 0]))
        G.case('(length (vector->list (make-vector %d 0)))' % n, w(n))
        G.case('(let ((l (vector->list (make-vector %d 0)))) (vector-length (list->vector l)))' % n, w(n))
    for bad in ["'(1 2)", '5', '"abc"', "'a", '#t', "'()"]:
        for e in ('(vector-length %s)', '(vector-ref %s 0)', '(vector-set! %s 0 1)', '(vector->list %s)'):
            G.err(e % bad)
        if bad not in ("'(1 2)", "'()"):
            G.err('(list->vector %s)' % bad)
    for bad in ["'a", '"x"', '#\\a', '1.0', '#t', "'()"]:
        G.err('(vector-ref (vector 1 2 3) %s)' % bad)
        G.err('(vector-set! (vector 1 2 3) %s 0)' % bad)
        G.err('(make-vector %s 0)' % bad)
    G.err('(make-vector -1 0)')
    G.case("(let* ((v (vector 1 2 3)) (l (vector->list v))) (vector-set! v 0 9) l)", '(1 2 3)')
    G.case("(let* ((l (list 1 2 3)) (v (list->vector l))) (set-car! l 9) v)", '#(1 2 3)')
