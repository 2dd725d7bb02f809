"""dynamic-wind: the guards that run when control enters and leaves its extent"""
from dsl import *
from evalmodel import Rep, Event, havoc, opaque as oq
from C27 import evaluating
S_ = Specs()
DW = 'C:eval_dynamic_wind/2'
CP, CT, UN, RE, DT = 'C:copy_wind_chain/1', 'C:find_common_tail/2', 'C:unwind_wind_chain/1', 'C:rewind_wind_chain/2', 'C:scm_dynthrow/2'
jj = z3.Int('jk')
KEY = 'mem8'


def wind(c):
    """address of the variable that holds the current chain of dynamic-winds"""
    mod = [m for m in c.ex.prog.modules if '@g_wind_chain' in m.globals][0]
    return IntVal(c.ex.prog.global_addr(mod, '@g_wind_chain'))


def startchain(c, w, v):
    t = simp(Select(init0(KEY), w))
    c.assume(t == v)
    c.ex.alias[t.get_id()] = (t, v)


def guarded(c, *names):
    """a guard or thunk that returns leaves the chain as it found it (the contract of dynamic-wind itself)"""
    w = wind(c)
    c.ex.note_assume('a procedure that returns normally leaves the chain of active dynamic-winds as it found it (proved for dynamic-wind itself)')
    for n in names:
        base = oq(n)

        def h(ex, st, args, ins, f, base=base):
            cur = ex.read(st, KEY, w)
            out = base(ex, st, args, ins, f)
            for o in out:
                ex.write(o[1], KEY, w, cur)
                o[1].ghost['ev'][-1].extra['#chain'] = cur
            return out
        c.ex.builtins[n] = h


@S_(CP, 'the saved chain has the same entries in the same order, in cells of its own')
def _(c):
    L = c.list_cells('chain')
    c.args = [L.W(IntVal(0))]
    c.post(lambda r: list(r.cells_are(r.st, r.v, L.n, L.D, fresh=True)))


@S_(CP, 'an empty chain')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda r: [('empty', r.v == 0)])


# ---------------------------------------------------------------- dynamic-wind
def dwcall(c, bad=None):
    c.nodebug()
    es = [c.any('expr%d' % i) for i in range(3)]
    ps = [c.not_('guard%d' % i, 'PROC') if bad == i else c.typed('guard%d' % i, 'PROC') for i in range(3)]
    c.assume(z3.Distinct(*[e.p for e in es]))
    evaluating(c, **{'p%d' % i: (e.p, p.p) for i, (e, p) in enumerate(zip(es, ps))})
    guarded(c, 'apply_procedure')
    ev = c.ex.builtins['eval_with_env']
    w = wind(c)

    def keep(ex, st, args, ins, f):
        cur = ex.read(st, KEY, w)
        out = ev(ex, st, args, ins, f)
        for o in out:
            ex.write(o[1], KEY, w, cur)
        return out
    c.ex.builtins['eval_with_env'] = keep
    a = c.ast('call', c.any('dynamic-wind'), *es)
    c.envp = c.env()
    c.args = [c.envp, a.cells[0]]
    c.modifies('any')
    c.es, c.ps, c.w = es, ps, w
    c.chain0 = Select(init0(KEY), w)


@S_(DW, 'before, thunk and after run once each in this order; the thunk runs inside the new entry, the guards outside; the value is that of the thunk')
def _(c):
    dwcall(c)

    def inside(R, args, k):
        ch = R.get(KEY, c.w)
        d = R.get('SCM_List.data', ch)
        e = R.get('SCM.value', d)
        e2 = R.get('SCM_List.next', e)
        yield 'before and after run outside of the entry', Implies(k != 1, ch == c.chain0), {}
        yield 'the thunk runs inside a new entry of its guards', Implies(k == 1, And(ch >= c.A0, R.get('SCM_List.next', ch) == c.chain0, d != 0, R.get('SCM.type', d) == T['LIST'], e != 0,
                                                                                      R.get('SCM_List.data', e) == c.ps[0].p, e2 != 0, R.get('SCM_List.data', e2) == c.ps[2].p)), {}
    c.atcall('apply_procedure', inside)

    def post(r):
        evs = list(r.ev)
        ok = [getattr(e, 'name', '') for e in evs] == ['eval_with_env'] * 3 + ['apply_procedure'] * 3
        yield 'the three operands are evaluated, then the three procedures are called', BoolVal(ok), {}
        if not ok:
            return
        yield 'each operand once, left to right', And(*[And(e.args[0] == c.envp, e.args[1] == x.p) for e, x in zip(evs, c.es)]), {}
        for e, p, n in zip(evs[3:], c.ps, ('before', 'thunk', 'after')):
            yield '%s is called without arguments' % n, And(e.args[1] == p.v, e.args[2] == 0), {}
        yield 'the value of the thunk is returned', r.v == evs[4].res, {}
        yield 'the chain is as it was', r.get(KEY, c.w) == c.chain0, {}
    c.post(post)


for _i, _n in enumerate(('before guard', 'thunk', 'after guard')):
    def _f(c, i=_i):
        dwcall(c, bad=i)
        c.err()
    S_.add(DW, 'a %s that is not a procedure is an error' % _n, _f)


@S_(DW, 'missing operands are an error')
def _(c):
    c.nodebug()
    c.opaque(eval_with_env=1, apply_procedure=1)
    a = c.ast('call', c.any('dynamic-wind'), c.any('e1'), c.any('e2'))
    c.args = [c.env(), a.cells[0]]
    c.err()


# ---------------------------------------------------------------- leaving and entering
def twochains(c, e1=False, e2=False):
    """two chains that share exactly their last k entries"""
    k = z3.Int('shared')
    A = None if e1 else c.list_cells('current')
    Bc = None if e2 else c.list_cells('target')
    n1, n2 = (IntVal(0) if e1 else A.n), (IntVal(0) if e2 else Bc.n)
    m = simp(If(n1 < n2, n1, n2))
    c.assume(k >= 0, k <= m)
    if A is not None and Bc is not None:
        def same(q):
            # position q of the current chain, counted from the outermost
            i, l = simp(n1 - m + q), simp(n2 - m + q)
            return (A.D(i) == Bc.D(l)) == (q >= m - k)
        c.st.fact(IdxFact(IntVal(0), m, same, 'exactly the shared entries are equal'))
        c.st.addidx(simp(m - k))
        c.st.addidx(simp(n1 - k))
        c.st.addidx(simp(n2 - k))
    return A, Bc, n1, n2, k


def common(e1, e2):
    def f(c):
        A, Bc, n1, n2, k = twochains(c, e1, e2)
        c.args = [A.W(IntVal(0)) if A else IntVal(0), Bc.W(IntVal(0)) if Bc else IntVal(0)]
        c.post(lambda r: [('the shared end of the first chain', r.v == (A.W(simp(n1 - k)) if A else IntVal(0)), dict(idx=[simp(n1 - k)]))])
    return f


S_.add(CT, 'the shared end of two chains', common(False, False))
S_.add(CT, 'an empty first chain shares nothing', common(True, False))
S_.add(CT, 'an empty second chain shares nothing', common(False, True))


class Entries:
    """the entries of a chain: (before after), both procedures"""

    def __init__(s, c, L, n):
        s.c, s.L = c, L
        c.st.fact(IdxFact(IntVal(0), n, s.well, 'entries'))

    def pair(s, j):
        return s.c.get('SCM.value', s.L.D(j))

    def before(s, j):
        return s.c.get('SCM_List.data', s.pair(j))

    def after(s, j):
        return s.c.get('SCM_List.data', s.c.get('SCM_List.next', s.pair(j)))

    def well(s, j):
        c, A0 = s.c, s.c.A0
        p, nx, b, a = s.pair(j), s.c.get('SCM_List.next', s.pair(j)), s.before(j), s.after(j)
        return And(c.type0(s.L.D(j), 'LIST'), p > 0, p < A0, nx > 0, nx < A0, *[And(x > 0, x < A0, c.type0(x, 'PROC'), c.get('SCM.value', x) > 0, c.get('SCM.value', x) < A0) for x in (b, a)])


def steps(evs, check):
    """(position, event) of every step"""
    pos = IntVal(0)
    for e in evs:
        if isinstance(e, Rep):
            if len(e.tmpl) != 1:
                yield 'one call per entry', BoolVal(False), {}
                return
            for n, g in check(e.at(jj)[0], simp(pos + jj)):
                yield n, Implies(And(jj >= 0, jj < e.n), g), dict(idx=[jj, simp(pos + jj)])
            pos = simp(pos + e.n)
        else:
            for n, g in check(e, pos):
                yield n, g, dict(idx=[pos])
            pos = simp(pos + 1)


def total(evs):
    t = IntVal(0)
    for e in evs:
        t = simp(t + (e.n if isinstance(e, Rep) else 1))
    return t


def unwind(some):
    def f(c):
        c.nodebug()
        L = c.list_cells('current')
        k = z3.Int('leave')
        c.assume(k >= 0, k <= L.n)
        if some:
            c.assume(k >= 1)
        else:
            c.assume(k == 0)
        E = Entries(c, L, L.n)
        w = wind(c)
        startchain(c, w, L.W(IntVal(0)))
        guarded(c, 'apply_procedure')
        c.ex.builtins['find_common_tail'] = lambda ex, st, args, ins, f: ret(st, L.W(k))
        c.ex.note_assume('find_common_tail is used through its contract (verified here)')
        c.st.addidx(k)
        t = c.ptr('targetchain') if hasattr(c, 'ptr') else c.scm('targetchain')
        c.args = [t]
        c.modifies('any')

        def at(R, args, q):
            yield 'a guard runs outside of its own entry', R.get(KEY, w) == L.W(simp(q + 1)), dict(idx=[q, simp(q + 1)])
        c.atcall('apply_procedure', at)

        def post(r):
            evs = list(r.ev)
            yield from steps(evs, lambda e, p: [('the after guards run from the innermost entry outwards', And(e.args[1] == c.get('SCM.value', E.after(p)), e.args[2] == 0))])
            yield 'of exactly the entries that are left', total(evs) == k, {}
            yield 'the chain is the common part', r.get(KEY, w) == L.W(k), dict(idx=[k])
            yield 'which is returned', r.v == L.W(k), dict(idx=[k])
        c.post(post)
    return f


S_.add(UN, 'leaving: the after guards of exactly the entries that are left run, innermost first, each outside of its own entry', unwind(True))
S_.add(UN, 'leaving nothing runs no guard', unwind(False))


def rewind(c):
    c.nodebug()
    L = c.list_cells('target')
    k = z3.Int('enter')
    c.assume(k >= 1, k <= L.n)
    E = Entries(c, L, L.n)
    w = wind(c)
    cm = z3.Int('common')
    c.assume(cm >= 0, cm < c.A0)
    startchain(c, w, cm)
    guarded(c, 'apply_procedure')
    # (the part in common is as long in both chains)
    c.ex.builtins['wind_chain_length'] = lambda ex, st, args, ins, f: ret(st, simp(If(simp(ex.ptrval(args[0])) == L.W(IntVal(0)), L.n, L.n - k)))
    c.assume(cm != L.W(IntVal(0)))
    c.st.addidx(k)
    c.st.addidx(simp(k - 1))
    c.args = [cm, L.W(IntVal(0))]
    c.modifies('any')

    def post(r):
        evs = list(r.ev)
        yield from steps(evs, lambda e, p: [('the before guards run from the outermost entry inwards', And(e.args[1] == c.get('SCM.value', E.before(simp(k - 1 - p))), e.args[2] == 0))])
        yield 'of exactly the entries that are entered', total(evs) == k, {}
    c.post(post)


S_.add(RE, 'entering: the before guards of exactly the entries that are entered run, outermost first', rewind, _unroll=3)


@S_(DT, 'a continuation leaves and enters before it continues')
def _(c):
    c.opaque(unwind_wind_chain=dict(nullable=True), rewind_wind_chain=1, grow_stack=1, copy_stack_and_call=1)
    k, v = c.typed('cont', 'CONT'), c.any('value')
    c.args = [k.p, v.p]
    c.modifies('any')

    def post(r):
        evs = list(r.ev)
        names = [getattr(e, 'name', '') for e in evs]
        ok = names[:2] == ['unwind_wind_chain', 'rewind_wind_chain'] and set(names[2:]) <= {'grow_stack', 'copy_stack_and_call'} and len(names) > 2
        yield 'guards run before the jump', BoolVal(ok), {}
        if not ok:
            return
        t = c.get('SCM_Continuation.wind_chain', k.v)
        yield 'towards the chain of the continuation', And(evs[0].args[0] == t, evs[1].args[1] == t, evs[1].args[0] == evs[0].res), {}
        yield 'the value passed', And(evs[2].args[1] == v.p, evs[2].args[0] == (k.p if names[2] == 'grow_stack' else k.v)), {}
    c.post(post)


def conform(G):
    r = G.rng
    G.pre("""(define tr '())
(define (N k) (set! tr (cons k tr)) k)
(define (run th) (set! tr '()) (let ((v (th))) (list v (reverse tr))))
(define (W k th) (dynamic-wind (lambda () (N (list 'in k))) th (lambda () (N (list 'out k)))))""")
    ins = lambda ks: ' '.join('(in %s)' % k for k in ks)
    outs = lambda ks: ' '.join('(out %s)' % k for k in ks)

    def nest(ks, body):
        e = body
        for k in reversed(ks):
            e = '(W %s (lambda () %s))' % (k, e)
        return e
    for n in range(0, G.n(7, 12)):
        ks = list(range(n))
        rk = list(reversed(ks))
        sp = lambda *xs: ' '.join(x for x in xs if x)
        # normal return
        G.case("(run (lambda () %s))" % nest(ks, "(N 'b)"), '(b (%s))' % sp(ins(ks), 'b', outs(rk)))
        # escape through a continuation
        G.case("(run (lambda () (call/cc (lambda (k) %s))))" % nest(ks, "(begin (N 'b) (k 7) (N 'no))"), '(7 (%s))' % sp(ins(ks), 'b', outs(rk)))
        # escape by an error
        G.case("(run (lambda () (catch #t (lambda () %s) (lambda (key . a) (N 'h) 8))))" % nest(ks, "(begin (N 'b) (car 5) (N 'no))"), '(8 (%s))' % sp(ins(ks), 'b', outs(rk), 'h'))
        # escape to the middle
        for m in range(0, n + 1):
            G.case("(run (lambda () %s))" % nest(ks[:m], '(begin (call/cc (lambda (k) %s)) (N (quote c)))' % nest(ks[m:], '(k 1)')),
                   '(c (%s))' % sp(ins(ks), outs(list(reversed(ks[m:]))), 'c', outs(list(reversed(ks[:m])))))
            # re-entry: leave m .. n, come back once
            G.case("(run (lambda () (let ((saved #f) (count 0)) %s 'done)))" % nest(ks[:m], '(begin %s (set! count (+ count 1)) (if (= count 1) (saved 0) 0))' % nest(ks[m:], "(begin (call/cc (lambda (k) (set! saved k))) (N 'b))")),
                   '(done (%s))' % sp(ins(ks[:m]), ins(ks[m:]), 'b', outs(list(reversed(ks[m:]))), ins(ks[m:]), 'b', outs(list(reversed(ks[m:]))), outs(list(reversed(ks[:m])))))
            # from one branch into another
            other = ['a%d' % i for i in range(n - m)]
            G.case("(run (lambda () (let ((saved #f) (count 0)) %s)))" % nest(ks[:m], """(begin %s (if (= count 0) (begin (set! count 1) %s)) 'd)""" % (
                nest(ks[m:], "(begin (call/cc (lambda (k) (set! saved k))) (N 'b))"), nest(["'" + x for x in other], "(saved 0)"))),
                '(d (%s))' % sp(ins(ks[:m]), ins(ks[m:]), 'b', outs(list(reversed(ks[m:]))), ins(other), outs(list(reversed(other))), ins(ks[m:]), 'b', outs(list(reversed(ks[m:]))), outs(list(reversed(ks[:m])))))
    # long chains
    G.pre('''(define (nestw i n th) (if (= i n) (th) (W i (lambda () (nestw (+ i 1) n th)))))''')
    for n in [x for x in G.lens(40) if x > 7 and x <= 300]:
        ks = list(range(n))
        rk = list(reversed(ks))
        m = r.choice([0, 1, n // 2, n - 1])
        G.case("(run (lambda () (nestw 0 %d (lambda () (N 'b)))))" % n, '(b (%s b %s))' % (ins(ks), outs(rk)))
        G.case("(run (lambda () (call/cc (lambda (k) (nestw 0 %d (lambda () (k 7)))))))" % n, '(7 (%s %s))' % (ins(ks), outs(rk)))
        G.case("(run (lambda () (catch #t (lambda () (nestw 0 %d (lambda () (car 5)))) (lambda (key . a) 8))))" % n, '(8 (%s %s))' % (ins(ks), outs(rk)))
        G.case("(run (lambda () (nestw 0 %d (lambda () (call/cc (lambda (k) (nestw %d %d (lambda () (k 1)))))))))" % (m, m, n), '(1 (%s %s))' % (ins(ks), outs(rk)))
        G.case("(run (lambda () (nestw 0 %d (lambda () (let ((saved #f) (count 0)) (nestw %d %d (lambda () (call/cc (lambda (k) (set! saved k))) (set! count (+ count 1)) (if (< count 3) (saved 0) count)))))))" % (m, m, n) + ')',
               '(3 (%s %s))' % (ins(ks), outs(rk)))
        G.case("(run (lambda () (nestw 0 %d (lambda () (let ((saved #f) (count 0)) (nestw %d %d (lambda () (call/cc (lambda (k) (set! saved k))))) (set! count (+ count 1)) (if (< count 2) (saved 0) count))))))" % (m, m, n),
               '(2 (%s))' % sp(ins(ks), outs(list(reversed(ks[m:]))), ins(ks[m:]), outs(list(reversed(ks[m:]))), outs(list(reversed(ks[:m])))))
    for v in ("'()", '#f', '"s"', '(list 1 2)', '3.5', "'sym", '(vector)'):
        G.case("(equal? %s (dynamic-wind (lambda () 1) (lambda () %s) (lambda () 2)))" % (v, v), '#t')
    G.case("(run (lambda () (dynamic-wind (N 1) (lambda () (N 2)) (lambda () (N 3)))))", lambda g: g.startswith('(ERR') or g == 'ERR') if False else None
    for e in ('(dynamic-wind)', '(dynamic-wind (lambda () 1))', '(dynamic-wind (lambda () 1) (lambda () 2))', '(dynamic-wind 1 (lambda () 2) (lambda () 3))', '(dynamic-wind (lambda () 1) 2 (lambda () 3))', '(dynamic-wind (lambda () 1) (lambda () 2) 3)'):
        G.err(e)
