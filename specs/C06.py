from dsl import *
S_ = Specs()
j = z3.Int('jj')
LISTY = ('LIST', 'NIL')


def nonlist(fn, *rest):
    def f(c):
        c.call(c.not_('x', *LISTY), *[g(c) for g in rest])
        c.err()
    return f


# ---- cons / car / cdr / set-car! / set-cdr!
@S_('cons', 'onto a proper list: new first element, the list itself as the rest')
def _(c):
    x, l = c.any('x'), c.lst('l')
    c.call(x, l)
    c.post(lambda r: [('is a pair', r.is_('LIST')), ('fresh cell', r.value >= c.A0), ('car', r.get('SCM_List.data', r.value) == x.p), ('rest is shared', r.get('SCM_List.next', r.value) == l.W(0)), ('not a dotted marker', r.get('SCM_List.is_dotted', r.value) == 0)])


@S_('cons', 'onto (): one-element list')
def _(c):
    x = c.any('x')
    c.call(x, c.nil())
    c.post(lambda r: r.list_is(IntVal(1), lambda i: x.p, fresh=True))


@S_('cons', 'onto a non-list: a pair whose cdr is that object')
def _(c):
    x, y = c.any('x'), c.not_('y', *LISTY)
    c.call(x, y)
    c.post(lambda r: r.list_is(IntVal(1), lambda i: x.p, fresh=True, dotted_last=y.p))


@S_('car', 'first element')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: [('value', r.v == l.D(IntVal(0)))])


@S_('cdr', 'proper list: the rest, sharing its cells')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: [('empty list after the last element', Implies(l.n == 1, r.is_('NIL'))), ('the remaining cells', Implies(l.n > 1, r.is_obj('LIST', l.W(1))))])


@S_('cdr', 'dotted pair: the cdr object itself')
def _(c):
    l = c.lst('l', dotted=True, minlen=2)
    c.assume(l.n == 2)
    c.call(l)
    c.post(lambda r: [('the cdr object', r.v == l.D(IntVal(1)))])


for nm in ('car', 'cdr'):
    @S_(nm, 'non-pair is an error')
    def _(c):
        c.call(c.not_('x', 'LIST'))
        c.err()


@S_('cadr', 'second element')
def _(c):
    l = c.lst('l', minlen=2)
    c.call(l)
    c.post(lambda r: [('value', r.v == l.D(IntVal(1)))])
    c.modifies('any')


@S_('cadr', 'fewer than two elements is an error')
def _(c):
    l = c.lst('l')
    c.assume(l.n == 1)
    c.call(l)
    c.err()


@S_('caddr', 'third element')
def _(c):
    l = c.lst('l', minlen=3)
    c.call(l)
    c.post(lambda r: [('value', r.v == l.D(IntVal(2)))])
    c.modifies('any')


@S_('cddr', 'rest after two')
def _(c):
    l = c.lst('l', minlen=2)
    c.call(l)
    c.post(lambda r: [('empty after the last element', Implies(l.n == 2, r.is_('NIL'))), ('the remaining cells', Implies(l.n > 2, r.is_obj('LIST', l.W(2))))])


@S_('set-car!', 'replaces exactly the car')
def _(c):
    l, x = c.lst('l'), c.any('x')
    c.call(l, x)
    c.post(lambda r: [('new car', r.get('SCM_List.data', l.W(0)) == x.p)])
    c.modifies([('SCM_List.data', l.W(0))])


def set_cdr(kind):
    def f(c):
        l = c.lst('l')
        x = c.lst('x') if kind == 'list' else c.nil('x') if kind == 'nil' else c.not_('x', *LISTY)
        c.call(l, x)

        def post(r):
            nx = r.get('SCM_List.next', l.W(0))
            yield 'car unchanged', r.get('SCM_List.data', l.W(0)) == l.D(IntVal(0))
            if kind == 'list':
                yield 'rest is that list', nx == x.W(0)
            elif kind == 'nil':
                yield 'list ends here', nx == 0
            else:
                yield 'cdr is that object', And(nx >= c.A0, r.get('SCM_List.data', nx) == x.p, r.get('SCM_List.is_dotted', nx) != 0, r.get('SCM_List.next', nx) == 0)
        c.post(post)
        c.modifies([('SCM_List.next', l.W(0))])
    return f


for k in ('list', 'nil', 'other'):
    S_.add('set-cdr!', 'replaces exactly the cdr (%s)' % k, set_cdr(k))
for nm in ('set-car!', 'set-cdr!'):
    @S_(nm, 'non-pair is an error')
    def _(c):
        c.call(c.not_('x', 'LIST'), c.any('y'))
        c.err()


# ---- list, length, reverse, append
@S_('list', 'any number of arguments: fresh list of the arguments in order')
def _(c):
    L = c.list_cells('args')
    c.args = [L.W(IntVal(0))]
    c.post(lambda r: r.list_is(L.n, L.D, fresh=True))


@S_('list', 'no arguments: ()')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda r: [('empty', r.is_('NIL'))])


@S_('length', 'number of elements of a proper list')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: [('value', r.is_num(l.n))])


@S_('length', '() has length 0')
def _(c):
    c.call(c.nil())
    c.post(lambda r: [('value', r.is_num(IntVal(0)))])


@S_('length', 'improper list is an error')
def _(c):
    c.call(c.lst('l', dotted=True, minlen=2))
    c.err()


S_.add('length', 'non-list is an error', nonlist('length'))
S_.add('reverse', 'non-list is an error', nonlist('reverse'))
S_.add('last-pair', 'non-list is an error', nonlist('last-pair'))
S_.add('list-ref', 'non-list is an error', nonlist('list-ref', lambda c: c.any('k')))
S_.add('list-tail', 'non-list is an error', nonlist('list-tail', lambda c: c.any('k')))


@S_('reverse', 'fresh list of the same elements in reverse order')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: r.list_is(l.n, lambda i: l.D(simp(l.n - 1 - i)), fresh=True))


@S_('reverse', '() is ()')
def _(c):
    c.call(c.nil())
    c.post(lambda r: [('empty', r.is_('NIL'))])


@S_('reverse', 'improper list is an error')
def _(c):
    c.call(c.lst('l', dotted=True, minlen=2))
    c.err()


@S_('append', 'no arguments: ()')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda r: [('empty', r.is_('NIL'))])


@S_('append', 'one argument: that object')
def _(c):
    x = c.any('x')
    c.call(x)
    c.post(lambda r: [('itself', r.v == x.p)])


@S_('append', 'two proper lists: concatenation, arguments unchanged', _cost=9)
def _(c):
    a, b = c.lst('a'), c.lst('b')
    c.call(a, b)
    c.post(lambda r: r.list_is(a.n + b.n, lambda i: If(i < a.n, a.D(i), b.D(simp(i - a.n))), fresh=a.n))


@S_('append', 'list and (): the elements of the list')
def _(c):
    a = c.lst('a')
    c.call(a, c.nil())
    c.post(lambda r: r.list_is(a.n, a.D, fresh=True))


@S_('append', '() and a list: the elements of the list')
def _(c):
    a = c.lst('a')
    c.call(c.nil(), a)
    c.post(lambda r: [('itself', r.v == a.p)] if r.v.get_id() == a.p.get_id() else r.list_is(a.n, a.D))


@S_('append', '() and any object: that object')
def _(c):
    x = c.not_('x', *LISTY)
    c.call(c.nil(), x)
    c.post(lambda r: [('itself', r.v == x.p)])


def append_nonlist(c):
    a, x = c.lst('a'), c.not_('x', *LISTY)
    c.call(a, x)
    c.post(lambda r: r.list_is(a.n, a.D, dotted_last=x.p, fresh=True))


S_.add('append', 'list and a non-list: improper list ending in that object', append_nonlist, _unroll=3)
S_.add('append', 'list and a non-list: improper list ending in that object (unbounded)', append_nonlist, thorough=True)


@S_('append', 'list and an improper list: all elements, same final tail', _cost=9)
def _(c):
    a, b = c.lst('a'), c.lst('b', dotted=True, minlen=2)
    c.call(a, b)
    c.post(lambda r: r.list_is(a.n + b.n - 1, lambda i: If(i < a.n, a.D(i), b.D(simp(i - a.n))), dotted_last=b.D(simp(b.n - 1)), fresh=a.n))


@S_('append', 'a non-list before the last argument is an error')
def _(c):
    c.call(c.not_('x', *LISTY), c.lst('b'))
    c.err()


# ---- indexing
@S_('list-ref', 'k-th element')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(k.v >= 0, k.v < l.n)
    c.st.addidx(k.v)
    c.call(l, k)
    c.post(lambda r: [('element', r.v == l.D(k.v), dict(idx=[k.v]))])


@S_('list-ref', 'out of range is an error')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(Or(k.v < 0, k.v >= l.n))
    c.call(l, k)
    c.err()


@S_('list-ref', 'index at the tail of an improper list is an error')
def _(c):
    l, k = c.lst('l', dotted=True, minlen=2), c.num('k')
    c.assume(k.v >= l.n - 1)
    c.call(l, k)
    c.err()


@S_('list-ref', 'non-integer index is an error')
def _(c):
    c.call(c.lst('l'), c.not_('k', 'NUM'))
    c.err()


@S_('list-tail', 'the list after k elements, sharing its cells')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(k.v >= 0, k.v < l.n)
    c.st.addidx(k.v)
    c.call(l, k)
    c.post(lambda r: [('tail', r.is_obj('LIST', l.W(k.v)), dict(idx=[k.v]))])


@S_('list-tail', 'k = length: ()')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(k.v == l.n)
    c.st.addidx(k.v)
    c.call(l, k)
    c.post(lambda r: [('empty', r.is_('NIL'), dict(idx=[k.v]))])


@S_('list-tail', 'k = 0 on an empty list: ()')
def _(c):
    k = c.num('k')
    c.assume(k.v == 0)
    c.call(c.nil(), k)
    c.post(lambda r: [('empty', r.is_('NIL'))])


@S_('list-tail', 'beyond the end (or negative) is an error')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(Or(k.v < 0, k.v > l.n))
    c.call(l, k)
    c.err()


@S_('list-tail', 'reaching the tail of an improper list gives that object')
def _(c):
    l, k = c.lst('l', dotted=True, minlen=2), c.num('k')
    c.assume(k.v == l.n - 1)
    c.st.addidx(k.v)
    c.call(l, k)
    c.post(lambda r: [('the object', r.v == l.D(k.v), dict(idx=[k.v]))])


@S_('list-head', 'the first k elements in a fresh list')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(k.v >= 1, k.v <= l.n)
    c.st.addidx(k.v)
    c.call(l, k)
    c.post(lambda r: r.list_is(k.v, l.D, fresh=True))


@S_('list-head', 'k = 0: ()')
def _(c):
    k = c.num('k')
    c.assume(k.v == 0)
    c.call(c.lst('l'), k)
    c.post(lambda r: [('empty', r.is_('NIL'))])


@S_('list-head', 'too short (or negative) is an error')
def _(c):
    l, k = c.lst('l'), c.num('k')
    c.assume(Or(k.v < 0, k.v > l.n))
    c.call(l, k)
    c.err()


@S_('last-pair', 'the last pair of a proper list, itself')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: [('last cell', r.is_obj('LIST', l.W(simp(l.n - 1))), dict(idx=[simp(l.n - 1)]))])


@S_('last-pair', 'improper list: the pair holding the tail')
def _(c):
    l = c.lst('l', dotted=True, minlen=2)
    c.call(l)
    c.post(lambda r: [('last pair', r.is_obj('LIST', l.W(simp(l.n - 2))), dict(idx=[simp(l.n - 2)]))])


def conform(G):
    from conform import w, q, Sym, Dot, ERR
    r = G.rng
    objs = [0, -1, 7, 300, True, False, Sym('a'), Sym('b'), 'str', [1, 2], []]

    def els(n):
        return [r.choice(objs) for _ in range(n)]
    for n in G.lens(G.n(45, 300)):
        l = els(n)
        m = els(r.choice([0, 1, 2, 3, 5, 8]))
        G.case('(length %s)' % q(l), w(n))
        G.case('(reverse %s)' % q(l), w(l[::-1]))
        G.case('(list %s)' % ' '.join(q(x) for x in l), w(l))
        G.case('(append %s %s)' % (q(l), q(m)), w(l + m))
        G.case('(append %s %s)' % (q(m), q(l)), w(m + l))
        G.case('(append %s %s %s)' % (q(l), q(m), q(l)), w(l + m + l))
        G.case("(append %s %s '() %s)" % (q(l), q(m), q(m)), w(l + m + m))
        G.case("(let* ((a (list %s)) (b (append a a))) (list a (length b)))" % ' '.join(q(x) for x in l), w([l, 2 * n]))
        if n:
            G.case('(append %s 5)' % q(l), w(Dot(l, 5)))
            G.case('(append %s %s)' % (q(m), q(Dot(l, 5))), w(Dot(m + l, 5)))
            G.case('(last-pair %s)' % q(l), w(l[-1:]))
            G.case('(last-pair %s)' % q(Dot(l, 5)), w(Dot(l[-1:], 5)))
            G.case('(let ((l (list %s))) (set-car! (last-pair l) 77) l)' % ' '.join(q(x) for x in l), w(l[:-1] + [77]))
            G.case('(let ((l (list %s))) (set-cdr! (last-pair l) (list 1 2)) l)' % ' '.join(q(x) for x in l), w(l + [1, 2]))
            G.err('(length %s)' % q(Dot(l, 5)))
            G.err('(reverse %s)' % q(Dot(l, 5)))
            G.case('(cons 1 %s)' % q(Dot(l, 5)), w(Dot([1] + l, 5)))
            G.case('(list-tail %s %d)' % (q(Dot(l, 5)), n), '5')
            G.err('(list-ref %s %d)' % (q(Dot(l, 5)), n))
            G.case('(car %s)' % q(l), w(l[0]))
            G.case('(cdr %s)' % q(l), w(l[1:]))
        if n > 1:
            G.case('(cadr %s)' % q(l), w(l[1]))
            G.case('(cddr %s)' % q(l), w(l[2:]))
        if n > 2:
            G.case('(caddr %s)' % q(l), w(l[2]))
        G.case("(cons 'z %s)" % q(l), w([Sym('z')] + l))
        for k in sorted({-1, 0, 1, n // 2, n - 1, n, n + 1, 1 << 32, -(1 << 62)} | {h for h in G.hint if -2 <= h <= n + 2}):
            G.case('(list-ref %s %d)' % (q(l), k), w(l[k]) if 0 <= k < n else ERR)
            G.case('(list-tail %s %d)' % (q(l), k), w(l[k:]) if 0 <= k <= n else ERR)
            G.case('(list-head %s %d)' % (q(l), k), w(l[:k]) if 0 <= k <= n else ERR)
    for n in (12000, 70000):
        G.case('(length (vector->list (make-vector %d 0)))' % n, w(n))
        G.case('(car (reverse (append (vector->list (make-vector %d 0)) (list 4))))' % n, '4')
        G.case('(length (append (vector->list (make-vector %d 0)) (vector->list (make-vector %d 0))))' % (n, n), w(2 * n))
        G.case('(list-ref (append (vector->list (make-vector %d 0)) (list 4)) %d)' % (n, n), '4')
        G.case('(length (last-pair (vector->list (make-vector %d 0))))' % n, '1')
        G.case('(length (list-head (vector->list (make-vector %d 0)) %d))' % (n, n - 1), w(n - 1))
    for bad in ['5', '"abc"', "'a", '#t', '(vector 1)']:
        for e in ('(length %s)', '(reverse %s)', '(car %s)', '(cdr %s)', '(list-ref %s 0)', '(list-tail %s 0)', '(last-pair %s)', '(set-car! %s 1)', '(set-cdr! %s 1)', "(append %s '(1))"):
            G.err(e % bad)
        G.case('(cons 1 %s)' % bad, '(1 . %s)' % {'(vector 1)': '#(1)', "'a": 'a'}.get(bad, bad))
    for e in ("(car '())", "(cdr '())", "(cadr '(1))", "(list-ref '(1 2) 'a)", "(list-tail '(1 2) 1.5)"):
        G.err(e)
    # identity of the elements and sharing, for objects of every kind
    from conform import OBJS
    for x, _ in OBJS:
        for e in ('(car (cons x 1))', '(cdr (cons 1 (cons x 2)))', '(car (list x))', '(cadr (list 1 x))', '(caddr (list 1 2 x))', '(car (reverse (list 1 x)))', '(list-ref (list 1 x) 1)', '(car (append (list x) (list 1)))',
                  '(cadr (append (list 1) (list x)))', '(car (list-head (list x 1) 1))', '(car (list-tail (list 1 x) 1))', '(car (last-pair (list 1 x)))', '(let ((p (list 1 2))) (set-car! p x) (car p))', '(let ((p (list 1 2))) (set-car! (cdr p) x) (cadr p))'):
            if e == '(cdr (cons 1 (cons x 2)))':
                e = '(car (cdr (cons 1 (cons x 2))))'
            G.case('(let ((x %s)) (eq? x %s))' % (x, e), '#t')
        if x[:2] not in ("'(", "'()") and 'list' not in x:
            G.case('(let ((x %s)) (eq? x (cdr (cons 1 x))))' % x, '#t')
            G.case('(let* ((x %s) (p (list 1 2))) (set-cdr! p x) (eq? x (cdr p)))' % x, '#t')
            G.case('(let* ((x %s)) (eq? x (cdr (append (list 1) x))))' % x, '#t')
            G.case("(let* ((x %s)) (eq? x (append '() x)))" % x, '#t')
    mut = [("(append a '())", 1), ('(append a (list 7))', 1), ("(append '() a (list 7))", 1), ("(append a '() '())", 1), ('(append a 5)', 1), ("(append (list 7) a '())", 2), ('(append a a)', 1), ('(reverse a)', 1), ('(list-head a 2)', 1), ('(cons 1 (reverse a))', 2), ("(append a '() (list 8) '())", 1)]
    for n in (1, 2, 3, 5):
        a = list(range(10, 10 + n))
        for e, k in mut:
            if 'head' in e and n < 2:
                continue
            for m in range(k - 1, n):
                G.case("(let* ((a (list %s)) (b %s)) (set-car! (list-tail b %d) 'new) a)" % (' '.join(map(str, a)), e, m if 'head' not in e else min(m, 1)), w(a) if 'head' not in e and '(append a a)' != e or True else None)
            if 'head' not in e:
                G.case("(let* ((a (list %s)) (b %s)) (set-car! a 'new) (memq 'new b))" % (' '.join(map(str, a)), e), '#f' if e != '(append a a)' else lambda g: g[:4] in ('#f', '(new'))
    for n in (1, 2, 3):
        G.case("(let* ((a (list %s)) (b (cons 0 a))) (set-car! a 'new) (cadr b))" % ' '.join(['1'] * n), 'new')
        G.case("(let* ((a (list 1 %s)) (b (list-tail a 1))) (set-car! b 'new) (cadr a))" % ' '.join(['1'] * n), 'new')
        G.case("(let* ((a (list 1 %s)) (b (cdr a))) (set-car! b 'new) (cadr a))" % ' '.join(['1'] * n), 'new')
    G.case("(let* ((l (list 1 2 3)) (t (list-tail l 1))) (set-car! t 9) l)", '(1 9 3)')
    G.case("(let* ((l (list 1 2 3)) (t (list-head l 2))) (set-car! t 9) l)", '(1 2 3)')
    G.case("(let* ((l (list 1 2 3)) (t (reverse l))) (set-car! t 9) l)", '(1 2 3)')
    G.case("(let* ((l (list 1 2 3)) (t (cons 0 l))) (set-car! l 9) t)", '(0 9 2 3)')
    G.case("(let* ((l (list 1 2 3))) (set-cdr! (cdr l) '()) l)", '(1 2)')
    G.case("(let* ((l (list 1 2 3))) (set-cdr! l 7) l)", '(1 . 7)')
    G.case("(let* ((l (cons 1 2))) (set-cdr! l (list 3)) l)", '(1 3)')
