from dsl import *
from evalmodel import opaque as oq
from symex import UREM
from C05 import relations, relation, REL
S_ = Specs()
H = z3.Function('hash', I, I, I)
KINDS = {'': 'equal', 'q': 'eq', 'v': 'eqv'}
j_ = z3.Int('jj')


def hashes(c):
    """hash codes: any function of the key"""
    def h(ex, st, args, ins, f):
        deep = args[1]
        deep = simp(If(deep, IntVal(1), IntVal(0))) if z3.is_bool(deep) else simp(deep)
        v = H(simp(ex.ptrval(args[0])), deep)
        st.assume(And(v >= -(1 << 63), v < 1 << 63))
        return [('ret', st, v, '')]
    c.ex.builtins['hash_code'] = h


def unsigned(x):
    return simp(If(x >= 0, x, x + (1 << 64)))


class Table:
    """a hash table, seen at the bucket of a key: empty, or a list of n entries; entry t is the pair
    (K(t) . rest) with cell E(t), V(t) the cell behind it (0: the empty list)"""

    def __init__(self, c, key, kind, empty=False):
        relations(c)
        relation(c, 'scm_cmp_eq', 'eq')
        relation(c, 'scm_cmp_eqv', 'eqv')
        relation(c, 'scm_cmp_equal', 'equal')
        hashes(c)
        self.c, self.kind = c, kind
        self.o = c.typed('table', 'HASH_TABLE')
        self.v = v = c.value(self.o.p)
        self.cap, self.buckets, self.size = c.get('SCM_HashTable.capacity', v), c.get('SCM_HashTable.buckets', v), c.get('SCM_HashTable.size', v)
        c.assume(self.cap > 0, self.cap < 1 << 40, self.size >= 0, self.size < 1 << 40)
        hk = H(key.p, IntVal(1 if kind == 'equal' else 0))
        c.assume(hk >= -(1 << 63), hk < 1 << 63)
        self.idx = UREM(unsigned(hk), unsigned(self.cap))
        self.slot = self.buckets + 8 * self.idx
        b = c.mem8(self.slot)
        self.bucket = b
        c.assume(self.idx >= 0, self.idx < self.cap)
        if empty:
            c.assume(b > 0, b < c.A0, c.type0(b, 'NIL'))
            self.n = IntVal(0)
            return
        c.assume(b > 0, b < c.A0)
        c.assume(c.type0(b, 'LIST'))
        L = c.list_cells('bucket')
        bv = c.value(b)
        c.assume(bv == L.W(0))
        c.ex.alias[bv.get_id()] = (bv, L.W(IntVal(0)))
        self.L, self.n, self.D, self.W = L, L.n, L.D, L.W
        E, K, V, NO = self.E, self.K, self.V, self.NO = [z3.Function('entry_' + k, I, I) for k in ('cell', 'key', 'rest', 'no')]
        IDXDECLS.update([f.get_id() for f in (E, K, V)])
        ini = lambda k, a: Select(init0(k), a)
        c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), And(c.type0(L.D(t), 'LIST'), c.value0(L.D(t)) == E(t), E(t) > 0, E(t) < c.A0, NO(E(t)) == t,
                                                                            ini('SCM_List.data', E(t)) == K(t), K(t) > 0, K(t) < c.A0, ini('SCM_List.next', E(t)) == V(t), V(t) >= 0, V(t) < c.A0,
                                                                            REL[kind](key.p, K(t)) == REL[kind](K(t), key.p))), 'entries'))
        self.key = key
        self.R = lambda t: REL[kind](key.p, K(t))

    def found(self):
        c, w = self.c, z3.Int('w')
        self.w = w
        c.st.addidx(w)
        c.assume(w >= 0, w < self.n, self.R(w))
        c.st.fact(IdxFact(IntVal(0), w, lambda j: Not(self.R(j)), 'not before'))
        self.stored = ini = lambda k: Select(init0(k), self.V(w))
        return w

    def absent(self):
        if not is_zero(self.n):
            self.c.st.fact(IdxFact(IntVal(0), self.n, lambda j: Not(self.R(j)), 'nowhere'))


def is_zero(n):
    return z3.is_int_value(n) and n.as_long() == 0


def value_is(r, t, obj):
    """obj is the value of the entry found"""
    ini = lambda k, a: Select(init0(k), a)
    V = t.V(t.w)
    yield 'the empty list if nothing is behind the key', Implies(V == 0, r.get('SCM.type', obj) == T['NIL'])
    yield 'the object itself', Implies(And(V != 0, ini('SCM_List.is_dotted', V) != 0), obj == ini('SCM_List.data', V))
    yield 'the whole list if a list is behind the key', Implies(And(V != 0, ini('SCM_List.is_dotted', V) == 0), And(r.get('SCM.type', obj) == T['LIST'], r.get('SCM.value', obj) == V))


def holds(r, e, key, value):
    """cell e begins the pair (key . value)"""
    n = r.get('SCM_List.next', e)
    yield 'with the key', r.get('SCM_List.data', e) == key.p
    yield 'and the value', Or(And(n != 0, r.get('SCM_List.is_dotted', n) != 0, r.get('SCM_List.data', n) == value.p, r.get('SCM_List.next', n) == 0),
                              And(n == 0, r.get('SCM.type', value.p) == T['NIL']))


def setups(kind):
    """the ways a key can be absent"""
    return (('an empty bucket', True), ('a bucket of other keys', False))


for _s, _k in KINDS.items():
    def _f(kind, sfx):
        ref, setb, get, create, rem = ['hash%s-%s' % (sfx, x) for x in ('ref', 'set!', 'get-handle', 'create-handle!', 'remove!')]

        @S_(ref, '%s: the value of the first entry whose key the predicate accepts' % ref)
        def _(c):
            k = c.any('key')
            t = Table(c, k, kind)
            t.found()
            c.call(t.o, k)
            c.modifies(lambda R: [])
            c.post(lambda r: list(value_is(r, t, r.v)))

        @S_(get, '%s: the entry itself' % get)
        def _(c):
            k = c.any('key')
            t = Table(c, k, kind)
            w = t.found()
            c.call(t.o, k)
            c.modifies(lambda R: [])
            c.post(lambda r: [('a pair', r.get('SCM.type', r.v) == T['LIST']), ('the one in the table', r.get('SCM.value', r.v) == t.E(w))])

        @S_(create, '%s: the entry of a key in the table, unchanged' % create)
        def _(c):
            k, v = c.any('key'), c.any('value')
            t = Table(c, k, kind)
            w = t.found()
            c.call(t.o, k, v)
            c.modifies(lambda R: [])
            c.post(lambda r: [('a pair', r.get('SCM.type', r.v) == T['LIST']), ('the one in the table', r.get('SCM.value', r.v) == t.E(w))])

        @S_(setb, '%s: a key in the table gets the value, nothing else changes' % setb)
        def _(c):
            k, v = c.any('key'), c.any('value')
            t = Table(c, k, kind)
            w = t.found()
            c.call(t.o, k, v)
            c.modifies(lambda R: [('SCM_List.next', t.E(w))])

            def post(r):
                yield 'returns the value', r.v == v.p
                n = r.get('SCM_List.next', t.E(w))
                yield 'the entry has the value', Or(And(n != 0, r.get('SCM_List.is_dotted', n) != 0, r.get('SCM_List.data', n) == v.p, r.get('SCM_List.next', n) == 0),
                                                    And(n == 0, r.get('SCM.type', v.p) == T['NIL']))
                yield 'in a cell of its own', Implies(n != 0, n >= c.A0)
            c.post(post)

        @S_(rem, '%s: exactly the first entry with the key goes' % rem)
        def _(c):
            k = c.any('key')
            t = Table(c, k, kind)
            w = t.found()
            c.st.addidx(w - 1)
            c.st.addidx(w + 1)
            c.call(t.o, k)
            c.modifies(lambda R: [('SCM_List.next', t.W(w - 1)), ('SCM_HashTable.size', t.v), ('mem8', t.slot)])

            def post(r):
                b = r.get('mem8', t.slot)
                yield 'an inner entry is unlinked', Implies(w > 0, And(b == t.bucket, r.get('SCM_List.next', t.W(w - 1)) == t.W(w + 1)))
                yield 'the only entry leaves an empty bucket', Implies(t.n == 1, r.get('SCM.type', b) == T['NIL'])
                yield 'the first entry leaves the others', Implies(And(w == 0, t.n > 1), And(r.get('SCM.type', b) == T['LIST'], r.get('SCM.value', b) == t.W(1)))
                yield 'one entry less', r.get('SCM_HashTable.size', t.v) == t.size - 1
            c.post(post)

        for what, empty in setups(kind):
            for fn in (ref, get):
                def _e(c, fn=fn, empty=empty):
                    k = c.any('key')
                    t = Table(c, k, kind, empty)
                    t.absent()
                    c.call(t.o, k)
                    c.modifies(lambda R: [])
                    c.post(lambda r: [('#f', r.is_bool(BoolVal(False)))])
                S_.add(fn, '%s: #f for a key with %s' % (fn, what), _e)

            def _e(c, empty=empty):
                k = c.any('key')
                t = Table(c, k, kind, empty)
                t.absent()
                c.call(t.o, k)
                c.modifies(lambda R: [])
                c.post(lambda r: [('no value', r.get('SCM.type', r.v) == T['NONE'])])
            S_.add(rem, '%s: nothing changes for a key with %s' % (rem, what), _e)
            for fn in (setb, create):
                def _e(c, fn=fn, empty=empty):
                    k, v = c.any('key'), c.any('value')
                    t = Table(c, k, kind, empty)
                    t.absent()
                    c.call(t.o, k, v)
                    c.modifies(lambda R: [('SCM_HashTable.size', t.v), ('mem8', t.slot)])

                    def post(r):
                        b = r.get('mem8', t.slot)
                        yield 'the bucket is a list', r.get('SCM.type', b) == T['LIST']
                        c0 = r.get('SCM.value', b)
                        yield 'with a new first element', c0 >= c.A0
                        p = r.get('SCM_List.data', c0)
                        yield 'a pair', r.get('SCM.type', p) == T['LIST']
                        yield 'no dotted tail', r.get('SCM_List.is_dotted', c0) == 0
                        e = r.get('SCM.value', p)
                        yield 'of its own', e >= c.A0
                        yield from holds(r, e, k, v)
                        yield 'before all the other entries', r.get('SCM_List.next', c0) == (IntVal(0) if empty else t.W(0))
                        yield 'one entry more', r.get('SCM_HashTable.size', t.v) == t.size + 1
                        if fn == create:
                            yield 'returns the entry in the table', And(r.get('SCM.type', r.v) == T['LIST'], r.get('SCM.value', r.v) == e)
                        else:
                            yield 'returns the value', r.v == v.p
                    c.post(post)
                S_.add(fn, '%s: a new entry for a key with %s, nothing else changes' % (fn, what), _e)
        for fn, k3 in ((ref, 0), (get, 0), (rem, 0), (setb, 1), (create, 1)):
            def _e(c, k3=k3):
                relations(c)
                hashes(c)
                c.call(c.not_('table', 'HASH_TABLE'), c.any('key'), *([c.any('value')] if k3 else []))
                c.err()
            S_.add(fn, '%s: anything but a table is an error' % fn, _e)
    _f(_k, _s)



@S_('make-hash-table', 'a size: a fresh empty table of that many buckets')
def _(c):
    n = c.num('n')
    c.assume(n.v >= 0, n.v < 1 << 31)
    c.call(n)
    c.modifies(lambda R: [])

    def post(r):
        yield 'a fresh table', And(r.is_('HASH_TABLE'), r.v >= c.A0, r.value >= c.A0)
        cap, b = r.get('SCM_HashTable.capacity', r.value), r.get('SCM_HashTable.buckets', r.value)
        yield 'with buckets', And(cap > 0, b >= c.A0)
        yield 'no entries', r.get('SCM_HashTable.size', r.value) == 0
        yield 'every bucket is empty', Implies(And(j_ >= 0, j_ < cap), r.get('SCM.type', r.mem8(b + 8 * j_)) == T['NIL']), dict(idx=[j_])
    c.post(post)


@S_('make-hash-table', 'a negative size is an error')
def _(c):
    n = c.num('n')
    c.assume(n.v < 0)
    c.call(n)
    c.err()


@S_('make-hash-table', 'a size that is no integer is an error')
def _(c):
    c.call(c.not_('n', 'NUM', 'NIL'))
    c.err()


# ---------------------------------------------------------------- keys that the predicates identify hash alike
def alike(ka, kb, same):
    def f(c):
        def rec(ex, st, args, ins, f):
            g, args = args[0], args[1:]
            if g.name.find('hash_code') < 0:
                return NotImplemented
            v = H(simp(ex.ptrval(args[0])), IntVal(1))
            return [('ret', st, v, '')]
        c.ex.builtins['<recursive>'] = rec
        c.modifies(lambda R: [])
        a, b = ka(c, 'a'), kb(c, 'b')
        c.assume(same(c, a, b))
        deep = z3.Bool('deep')
        c.args, c.args2 = [a.p, deep], [b.p, deep]
        c.post(lambda r: [('the same hash code', r.first == r.v)])
    return f


num = lambda c, n: c.num(n)
chr_ = lambda c, n: c.char(n)
flt = lambda c, n: c.flt(n)
boo = lambda c, n: c.bool(n)
rat = lambda c, n: c.ratio(n)
HC = 'C:hash_code/2'
S_.add(HC, 'equal integers hash alike', alike(num, num, lambda c, a, b: c.value0(a.p) == c.value0(b.p)))
S_.add(HC, 'equal characters hash alike', alike(chr_, chr_, lambda c, a, b: c.value0(a.p) % 256 == c.value0(b.p) % 256))
S_.add(HC, 'equal booleans hash alike', alike(boo, boo, lambda c, a, b: (c.value0(a.p) == 0) == (c.value0(b.p) == 0)))
S_.add(HC, 'the same float hashes alike', alike(flt, flt, lambda c, a, b: c.dbl(a) == c.dbl(b)))
S_.add(HC, 'an integer and the float it converts to hash alike', alike(num, flt, lambda c, a, b: c.dbl(a) == c.dbl(b)))
S_.add(HC, 'a float and the integer that converts to it hash alike', alike(flt, num, lambda c, a, b: c.dbl(a) == c.dbl(b)))
S_.add(HC, 'equal ratios hash alike', alike(rat, rat, lambda c, a, b: And(*[c.get('SCM_Rational.' + k, c.value0(a.p)) == c.get('SCM_Rational.' + k, c.value0(b.p)) for k in ('numerator', 'denominator')])))


# ---------------------------------------------------------------- real runs
def conform(G):
    """histories of table operations against an association list"""
    r = G.rng
    from fractions import Fraction

    def key(kind):
        k = r.randrange(12)
        if k < 3:
            n = r.choice([0, 1, -1, 31, 62, 7, 38, -31, 4294967296, 1 << 61, r.randrange(-80, 80)])
            return ('n', n), str(n)
        if k == 3:
            n = r.choice([0.5, -0.5, 1.0, 0.0, 31.0, 2.25, -7.0])
            return ('n', n), repr(n)
        if k == 4:
            a, b = r.randrange(1, 9), r.randrange(2, 9)
            q = Fraction(a, b)
            return ('q', (q.numerator, q.denominator)) if q.denominator > 1 else ('n', int(q)), '(/ %d %d)' % (a, b)
        if k == 5:
            s = r.choice(['a', 'b', 'ab', 'ba', 'foo', 'bar', 'x1'])
            return ('y', s), "'" + s
        if k == 6:
            s = r.choice(['', 'a', 'b', 'ab', 'ba', 'foo'])
            return ('s', s), '"%s"' % s if r.randrange(2) else '(string%s)' % ''.join(' #\\' + ch for ch in s)
        if k == 7:
            s = r.choice('abAB01')
            return ('c', s), '#\\' + s
        if k == 8:
            s = r.choice(['#t', '#f'])
            return ('b', s), s
        if k == 9:
            return ('l', ()), "'()"
        if kind == 'equal':
            def datum(d):
                if d == 0 or r.randrange(3) == 0:
                    n = r.randrange(4)
                    return ('n', n), str(n)
                es = [datum(d - 1) for _ in range(r.randrange(1, 4))]
                if r.randrange(4) == 0:
                    return ('v', tuple(e[0] for e in es)), '(vector %s)' % ' '.join(e[1] for e in es)
                w = '(list %s)' % ' '.join(e[1] for e in es)
                if r.randrange(3) == 0:
                    w = '(cons %s (list %s))' % (es[0][1], ' '.join(e[1] for e in es[1:]))
                elif r.randrange(3) == 0:
                    w = '(cdr (list 0 %s))' % ' '.join(e[1] for e in es)
                return ('l', tuple(e[0] for e in es)), w
            return datum(2)
        return None, r.choice(['p1', 'p2', 'v1', 'v2', 'f1', '(cdr p3)', 'p3', '(car p4)'])
    ident = {'p1': 1, 'p2': 2, 'v1': 3, 'v2': 4, 'f1': 5, '(cdr p3)': 6, 'p3': 7, '(car p4)': 8}
    for i in range(G.n(120, 1500)):
        kind, sfx = r.choice([('equal', ''), ('eq', 'q'), ('eqv', 'v')])
        size = r.choice(['', '1', '2', '3', '31', '7', '0'])
        keys = [key(kind) for _ in range(r.randrange(2, 9))]
        keys = [((('i', ident[w]) if d is None else d), w) for d, w in keys]
        tab, ops, want = [], [], []
        find = lambda d: next((e for e in tab if e[0] == d), None)
        for t in range(r.randrange(3, 16)):
            d, w = r.choice(keys)
            e = find(d)
            o = r.randrange(9)
            n = r.randrange(100)
            v, vw = r.choice([(str(n), str(n)), ('(%d x)' % n, "(list %d 'x)" % n), ('()', "'()"), ('(%d . y)' % n, "(cons %d 'y)" % n), ('#f', '#f'), ('()', '(list)')])
            if o < 3:
                ops.append('(hash%s-set! h %s %s)' % (sfx, w, vw))
                if e:
                    e[1] = v
                else:
                    tab.append([d, v])
                want.append(v)
            elif o < 6:
                ops.append('(hash%s-ref h %s)' % (sfx, w))
                want.append(e[1] if e else '#f')
            elif o == 6:
                ops.append('(begin (hash%s-remove! h %s) \'-)' % (sfx, w))
                tab = [x for x in tab if x is not e]
                want.append('-')
            elif o == 7:
                ops.append('(let ((p (hash%s-create-handle! h %s %s))) (cdr p))' % (sfx, w, vw))
                if not e:
                    tab.append([d, v])
                want.append(e[1] if e else v)
            else:
                ops.append('(let ((p (hash%s-get-handle h %s))) (if p (begin (set-cdr! p %s) (cdr p)) #f))' % (sfx, w, vw))
                if e:
                    e[1] = v
                want.append(v if e else '#f')
        ops.append('(hash-fold (lambda (k v n) (+ n 1)) 0 h)')
        want.append(str(len(tab)))
        vs = sorted(x[1] for x in tab)
        ops.append("(let ((l (hash-fold (lambda (k v l) (cons v l)) '() h))) (map (lambda (x) (let loop ((m l) (n 0)) (if (null? m) n (loop (cdr m) (if (equal? (car m) x) (+ n 1) n))))) l))")
        # how often each value occurs, as a multiset of counts in table order: compare its sorted form
        cnt = [vs.count(x[1]) for x in tab]
        ops[-1] = '(apply + %s)' % ops[-1]
        want.append(str(sum(cnt)))
        src = "(let* ((h (make-hash-table%s)) (p1 (list 1 2)) (p2 (list 1 2)) (v1 (vector 1)) (v2 (vector 1)) (f1 (lambda () 1)) (p3 (list 0 1 2)) (p4 (list (list 9))) (out '()) (put! (lambda (x) (set! out (cons x out))))) %s (reverse out))" % (
            ' ' + size if size else '', ' '.join('(put! %s)' % o for o in ops))
        G.case(src, '(%s)' % ' '.join(want))
    for fn in ('ref', 'get-handle', 'remove!'):
        for s in ('', 'q', 'v'):
            G.case("(hash%s-%s '(a) 1)" % (s, fn), 'ERR')
            G.case("(hash%s-%s (make-hash-table) 1)" % (s, fn), '#f') if fn != 'remove!' else None
    # many keys in one bucket
    for n in [10, 66, 130, 300] + [h + 1 for h in G.hint if 10 < h < 600]:
        for s in ('', 'q', 'v'):
            for size in ('1', '2', ''):
                G.case("(let ((h (make-hash-table %s))) (do ((i 0 (+ i 1))) ((= i %d)) (hash%s-set! h i (* i i))) (do ((i 0 (+ i 2))) ((>= i %d)) (hash%s-set! h i (- 0 i))) (hash%s-remove! h 1) "
                       "(list (hash%s-ref h 0) (hash%s-ref h 1) (hash%s-ref h 3) (hash%s-ref h %d) (hash%s-get-handle h 5) (hash-fold (lambda (k v r) (+ r 1)) 0 h)))" % (size, n, s, n, s, s, s, s, s, s, n - 2, s),
                       '(0 #f 9 %d (5 . 25) %d)' % (-(n - 2) if n % 2 == 0 else (n - 2) ** 2, n - 1))
    G.case("(make-hash-table -1)", 'ERR')
    G.case("(make-hash-table 'a)", 'ERR')
    G.case("(let ((h (make-hash-table))) (hash-set! h 'a 1) (hash-set! h 'b 2) (hash-fold (lambda (k v r) (+ v r)) 0 h))", '3')
    G.case("(let ((h (make-hash-table))) (hash-set! h '(f x) '(g y)) (hash-fold (lambda (k v r) (list k v r)) 'z h))", '((f x) (g y) z)')
