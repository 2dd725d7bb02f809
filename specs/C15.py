from dsl import *
S_ = Specs()
EV = 'C:eval_with_env/2'


def nomacro(c):
    """keywords keep their standard meaning: no macro of that name is visible"""
    z = lambda ex, st, args, ins, f: ret(st, IntVal(0))
    for n in ('scm_env_exist', 'scm_current_module', 'module_obarray_lookup', 'scm_env_search_entry'):
        c.ex.builtins[n] = z


def form(c, kw, *elems, tail=None):
    nomacro(c)
    c.opaque(eval_with_env=1, apply_procedure=1, eval_with_func=1)
    c.tailcalls('eval_with_env')
    a = c.ast('form', c.symbol('kw', kw), *elems, tail=tail)
    e = c.env()
    c.args = [e, a.p]
    c.envp = e
    c.modifies('any')
    return a


def evals(r, n):
    return BoolVal(len(r.ev) == n)


def isev(c, e, x):
    return And(BoolVal(e.name == 'eval_with_env'), e.args[0] == c.envp, e.args[1] == P(x))


def tail_is(r, c, x, before=None):
    t = r.tail_of()
    if t is None:
        return BoolVal(False)
    return t[0] == P(x)


def tl(r):
    t = r.tail_of()
    return t if t is not None else (None, r.ev)


@S_(EV, 'if with two branches: evaluates the test once, then exactly the selected branch')
def _(c):
    a, b, d = c.any('test'), c.any('then'), c.any('else')
    form(c, 'if', a, b, d)

    def post(r):
        x, evs = tl(r)
        yield 'the test is evaluated first, exactly once', BoolVal(len(evs) == 1)
        if len(evs) != 1:
            return
        yield 'the test expression in the current scope', isev(c, evs[0], a)
        yield 'one branch follows', BoolVal(x is not None)
        if x is not None:
            yield 'then-branch exactly when the test is not #f', x == If(evs[0].truthy, b.p, d.p)
    c.post(post)


@S_(EV, 'if without else: unspecified when the test is #f')
def _(c):
    a, b = c.any('test'), c.any('then')
    form(c, 'if', a, b)

    def post(r):
        x, evs = tl(r)
        yield 'the test is evaluated first, exactly once', BoolVal(len(evs) == 1)
        if len(evs) != 1:
            return
        yield 'the test expression', isev(c, evs[0], a)
        if x is not None:
            yield 'then-branch only when the test is not #f', And(evs[0].truthy, x == b.p)
        else:
            yield 'no branch when the test is #f', Not(evs[0].truthy)
            yield 'unspecified value', r.v == z3.Int('OBJ_none')
    c.post(post)


@S_(EV, 'quote returns the datum itself and evaluates nothing')
def _(c):
    a = c.any('datum')
    form(c, 'quote', a)
    c.post(lambda r: [('datum', r.v == a.p), ('nothing evaluated', evals(r, 0))])


@S_(EV, 'and with no expressions is #t')
def _(c):
    form(c, 'and')
    c.post(lambda r: [('true', r.is_bool(BoolVal(True))), ('nothing evaluated', evals(r, 0))])


@S_(EV, 'or with no expressions is #f')
def _(c):
    form(c, 'or')
    c.post(lambda r: [('false', r.is_bool(BoolVal(False))), ('nothing evaluated', evals(r, 0))])


def andor(isand):
    def f(c):
        L = c.list_cells('exprs')
        form(c, 'and' if isand else 'or', tail=L)

        def post(r):
            t = r.jump()
            x = t[0] if t else None
            evs = r.ev
            from evalmodel import Rep
            # flatten: optional Rep followed by single events
            pos = IntVal(0)
            j = z3.Int('jk')
            for k, e in enumerate(evs):
                final = x is None and k == len(evs) - 1
                if isinstance(e, Rep):
                    yield 'one evaluation per expression', BoolVal(len(e.tmpl) == 1)
                    q = e.at(j)[0]
                    rng = And(j >= 0, j < e.n)
                    yield 'expressions are evaluated left to right', Implies(rng, isev(c, q, L.D(simp(pos + j)))), dict(idx=[j, simp(pos + j)])
                    yield 'evaluation goes on only while the result does not decide', Implies(rng, q.truthy if isand else Not(q.truthy)), dict(idx=[j, simp(pos + j)])
                    pos = simp(pos + e.n)
                else:
                    yield 'expressions are evaluated left to right', isev(c, e, L.D(pos)), dict(idx=[pos])
                    if not final:
                        yield 'evaluation goes on only while the result does not decide', e.truthy if isand else Not(e.truthy), dict(idx=[pos])
                        pos = simp(pos + 1)
            if x is not None:
                yield 'the last expression decides, in tail position', And(x == L.D(pos), pos == L.n - 1), dict(idx=[pos])
            else:
                e = evs[-1] if evs else None
                ok = e is not None and not isinstance(e, Rep)
                yield 'the value comes from an evaluated expression', BoolVal(ok), {}
                if ok:
                    yield 'stopped early only by a deciding value', Or(pos == L.n - 1, Not(e.truthy) if isand else e.truthy), dict(idx=[pos])
                    yield 'the deciding value is the result', Or(r.v == e.res, And(Not(e.truthy), r.is_bool(BoolVal(False)))), {}
        c.post(post)
    return f


S_.add(EV, 'and: left to right, stops at the first #f, last expression in tail position', andor(True))
S_.add(EV, 'or: left to right, stops at the first true value, last expression in tail position', andor(False))


@S_(EV, 'begin: every expression in order, value of the last')
def _(c):
    L = c.list_cells('exprs')
    form(c, 'begin', tail=L)

    def post(r):
        from evalmodel import Rep
        x, evs = tl(r)
        pos = IntVal(0)
        j = z3.Int('jk')
        for e in evs:
            if isinstance(e, Rep):
                q = e.at(j)[0]
                yield 'expressions are evaluated in order', Implies(And(j >= 0, j < e.n), isev(c, q, L.D(simp(pos + j)))), dict(idx=[j, simp(pos + j)])
                pos = simp(pos + e.n)
            else:
                yield 'expressions are evaluated in order', isev(c, e, L.D(pos)), dict(idx=[pos])
                pos = simp(pos + 1)
        if x is not None:
            yield 'the last expression gives the value', And(x == L.D(pos), pos == L.n - 1), dict(idx=[pos])
        else:
            yield 'every expression is evaluated', pos == L.n
            yield 'value of the last', r.v == evs[-1].res if evs and not isinstance(evs[-1], Rep) else BoolVal(False)
    c.post(post)


@S_(EV, 'self-evaluating data evaluate to themselves')
def _(c):
    nomacro(c)
    c.opaque(eval_with_env=1)
    c.tailcalls('eval_with_env')
    x = c.typed('x', 'NUM', 'FLOAT', 'CHAR', 'BOOL', 'STR', 'RATIO', 'VECTOR')
    c.envp = c.env()
    c.args = [c.envp, x.p]
    c.post(lambda r: [('itself', r.v == x.p), ('nothing evaluated', evals(r, 0))])
    c.modifies('any')


# ---------------------------------------------------------------- cond and case
NAMED = {k: z3.Function('spelled_' + k, I, B) for k in ('else', 'arrow')}
SPELL = {b'else': 'else', b'=>': 'arrow'}


def spelling(c):
    """comparing the name of an object of the program with else / => : a relation on names"""
    from builtin_fns import known_bytes
    orig = c.ex.builtins['@strcmp']

    def h(ex, st, args, ins, f):
        a, b = simp(args[0]), simp(args[1])
        ka, kb = known_bytes(ex, st, a), known_bytes(ex, st, b)
        if (ka is None) != (kb is None):
            k, p = (ka, b) if kb is None else (kb, a)
            n = SPELL.get(bytes(k).rstrip(b'\0'))
            if n:
                return ret(st, If(NAMED[n](p), IntVal(0), IntVal(1)))
        return orig(ex, st, args, ins, f)
    c.ex.builtins['@strcmp'] = h


def spelled(c, x, n):
    v = c.get('SCM.value', x)
    return And(c.type0(x, 'SYM'), NAMED[n](c.get('SCM_Symbol.data', v)))


class Clauses:
    """the clauses of a cond or case form: D(j) = (head(j) . rest(j))"""

    def __init__(s, c, minrest=0):
        s.c = c
        s.L = c.list_cells('clauses')
        s.n = s.L.n
        s.c.st.fact(IdxFact(IntVal(0), s.n, s.well, 'clauses are non-empty lists'))

    def cell(s, j):
        return s.c.get('SCM.value', s.L.D(j))

    def head(s, j):
        return s.c.get('SCM_List.data', s.cell(j))

    def rest(s, j):
        return s.c.get('SCM_List.next', s.cell(j))

    def well(s, j):
        c, A = s.c, s.c.A0
        x = s.head(j)
        return And(c.type0(s.L.D(j), 'LIST'), s.cell(j) > 0, s.cell(j) < A, x > 0, x < A, s.rest(j) >= 0, s.rest(j) < A,
                   obj(c, x), Implies(s.rest(j) != 0, obj(c, s.second(j))))

    def second(s, j):
        return s.c.get('SCM_List.data', s.rest(j))

    def iselse(s, j):
        return spelled(s.c, s.head(j), 'else')

    def arrow(s, j):
        return And(s.rest(j) != 0, spelled(s.c, s.second(j), 'arrow'))


def obj(c, x):
    v = c.get('SCM.value', x)
    return And(x > 0, x < c.A0, Implies(c.type0(x, 'SYM'), And(v > 0, v < c.A0, c.get('SCM_Symbol.data', v) > 0)),
               Implies(c.type0(x, 'LIST'), And(v > 0, v < c.A0)))


def tests(r, C, evs):
    """the trace evaluates the heads of clauses 0, 1, ... in order; every one but the last gave #f; none of them is an else clause"""
    from evalmodel import Rep
    c = C.c
    pos = IntVal(0)
    j = z3.Int('jk')
    for k, e in enumerate(evs):
        final = k == len(evs) - 1
        if isinstance(e, Rep):
            ok = len(e.tmpl) == 1
            yield 'one evaluation per clause', BoolVal(ok), {}, None
            if not ok:
                return
            q = e.at(j)[0]
            p, rng = simp(pos + j), And(j >= 0, j < e.n)
            fin = And(j == e.n - 1, BoolVal(final))
            yield 'the tests are evaluated in order', Implies(rng, isev(c, q, C.head(p))), dict(idx=[j, p]), None
            yield 'a clause is left only when its test is #f', Implies(And(rng, Not(fin)), Not(q.truthy)), dict(idx=[j, p]), None
            yield 'else is no test', Implies(rng, Not(C.iselse(p))), dict(idx=[j, p]), None
            pos = simp(pos + e.n)
        else:
            yield 'the tests are evaluated in order', isev(c, e, C.head(pos)), dict(idx=[pos]), None
            if not final:
                yield 'a clause is left only when its test is #f', Not(e.truthy), dict(idx=[pos]), None
            yield 'else is no test', Not(C.iselse(pos)), dict(idx=[pos]), None
            pos = simp(pos + 1)
    last = evs[-1] if evs else None
    lr = None
    if last is not None:
        q = last.at(simp(last.n - 1))[0] if isinstance(last, Rep) else last
        lr = q
    yield None, pos, None, lr


def cond(arrow):
    def f(c):
        spelling(c)
        C = Clauses(c)
        form(c, 'cond', tail=C.L)
        c.opaque(eval_with_env=1, eval_with_list=1)
        w = c.any('none').p if False else None
        if arrow:
            c.st.fact(IdxFact(IntVal(0), C.n, lambda j: Or(C.iselse(j), And(C.arrow(j), three(C, j))), 'every clause has a receiver'))
        else:
            c.st.fact(IdxFact(IntVal(0), C.n, lambda j: Not(C.arrow(j)), 'no clause has a receiver'))

        def post(r):
            t = r.jump()
            evs = list(r.ev)
            body = evs.pop() if evs and getattr(evs[-1], 'name', '') == 'eval_with_list' else None
            recv = None
            if arrow and body is None and (t is not None) and evs:
                if not hasattr(evs[-1], 'name'):
                    yield 'it is applied', BoolVal(False), {}
                    return
                recv = evs.pop()
            elif arrow and body is None and evs and hasattr(evs[-1], 'name') and r.v.get_id() == evs[-1].res.get_id():
                # (a receiver that is a symbol, not a procedure: outside the contract)
                yield 'a procedure as receiver is applied', evs[-1].ty == T['SYM']
                return
            n = q = None
            for nm, g, kw, lq in tests(r, C, evs):
                if nm is None:
                    n, q = g, lq
                    break
                yield nm, g, kw
            if n is None:
                return
            p = simp(n - 1)
            if body is not None:
                # the clause selected: an else clause after the tests, or the clause of the last test
                els = And(n < C.n, C.iselse(n), Or(BoolVal(q is None), n == 0, Not(q.truthy) if q is not None else BoolVal(True)), body.args[1] == C.rest(n))
                sel = And(n > 0, q.truthy, C.rest(p) != 0, body.args[1] == C.rest(p)) if q is not None else BoolVal(False)
                if arrow:
                    sel = BoolVal(False)
                yield 'exactly the selected clause is evaluated: the first whose test is true, or else', And(Or(els, sel), body.args[0] == c.envp), dict(idx=[n, p])
                yield 'its value is the value of the form', r.v == body.res
                return
            if arrow and recv is not None:
                third = c.get('SCM_List.data', c.get('SCM_List.next', C.rest(p)))
                yield 'the receiver of the first clause whose test is true is evaluated', And(n > 0, q.truthy if q is not None else BoolVal(False), isev(c, recv, third)), dict(idx=[p])
                if q is None:
                    return
                x = t[0]
                cell = r.get('SCM.value', x)
                c2 = r.get('SCM_List.next', cell)
                yield 'it is applied', And(r.is_('LIST', x), Or(r.get('SCM_List.data', cell) == recv.res)), {}
                a1 = r.get('SCM_List.data', c2)
                q1 = r.get('SCM.value', a1)
                q2 = r.get('SCM_List.next', q1)
                yield 'to one argument', And(c2 != 0, r.get('SCM_List.next', c2) == 0), {}
                yield 'the value of the test', And(r.is_('LIST', a1), r.get('SCM_List.data', q1) == z3.Int('OBJ_sym_quote'), q2 != 0, r.get('SCM_List.data', q2) == q.res, r.get('SCM_List.next', q2) == 0), {}
                return
            yield 'no other evaluation', BoolVal(t is None), {}
            if q is None:
                yield 'no clause at all', And(n == 0, C.n == 0), {}
                yield 'unspecified value', r.v == z3.Int('OBJ_none'), {}
            else:
                yield 'a true test without expressions gives its value; without a true test the value is unspecified', \
                    Or(And(q.truthy, C.rest(p) == 0, r.v == q.res), And(Not(q.truthy), n == C.n, r.v == z3.Int('OBJ_none'))), dict(idx=[n, p])
        c.post(post)
    return f


def three(C, j):
    c = C.c
    k = c.get('SCM_List.next', C.rest(j))
    return And(k > 0, k < c.A0, obj(c, c.get('SCM_List.data', k)))


S_.add(EV, 'cond: tests in order until the first true one, whose clause gives the value; else when none is', cond(False))
S_.add(EV, 'cond with receivers: the receiver of the first true test is applied to the value of the test', cond(True))


# ---------------------------------------------------------------- case
INDATUMS = z3.Function('among_datums', I, B)
VID = 'C:value_in_datums/2'


def case_(how):
    def f(c):
        spelling(c)
        c.ex.builtins['value_in_datums'] = lambda ex, st, args, ins, f: ret(st, INDATUMS(simp(ex.ptrval(args[1]))))
        c.ex.note_assume('value_in_datums is used through its contract (verified here)')
        key = c.any('key')
        C = Clauses(c)
        form(c, 'case', key, tail=C.L)
        c.opaque(eval_with_env=1, eval_with_list=1)
        # the datums of a clause: a list, or nothing
        c.st.fact(IdxFact(IntVal(0), C.n, lambda j: Or(C.iselse(j), c.type0(C.head(j), 'LIST'), And(c.type0(C.head(j), 'NIL'), c.get('SCM.value', C.head(j)) == 0)), 'datums'))
        w = z3.Int('w')
        over = lambda q: And(Not(C.iselse(q)), Not(INDATUMS(c.get('SCM.value', C.head(q)))))
        if how == 'found':
            c.assume(w >= 0, w < C.n, Not(over(w)))
            c.st.addidx(w)
        c.st.fact(IdxFact(IntVal(0), w if how == 'found' else C.n, over, 'clauses that are passed over'))

        def keyed(R, args, k):
            yield 'the datums are compared with the value of the key', And(BoolVal(len(R.ev) == 1), args[0] == R.ev[0].res) if R.ev else BoolVal(False)
        c.atcall('value_in_datums', keyed)

        def post(r):
            evs = list(r.ev)
            ok = all(hasattr(e, 'name') for e in evs) and len(evs) == (2 if how == 'found' else 1)
            yield 'the key is evaluated, and then exactly the clause selected' if how == 'found' else 'only the key is evaluated', BoolVal(ok), {}
            if not ok:
                return
            yield 'the key expression, first', isev(c, evs[0], key), {}
            yield 'no other evaluation', BoolVal(r.jump() is None), {}
            if how == 'found':
                b = evs[1]
                yield 'the expressions of the first clause that contains the key, or of else', And(BoolVal(b.name == 'eval_with_list'), b.args[0] == c.envp, b.args[1] == C.rest(w)), dict(idx=[w])
                yield 'their value is the value of the form', r.v == b.res, {}
            else:
                yield 'the value is #f', r.is_bool(BoolVal(False)), {}
        c.post(post)
    return f


S_.add(EV, 'case: the key is evaluated once; the first clause that contains it, or else, gives the value', case_('found'))
S_.add(EV, 'case: no clause contains the key and there is no else', case_('none'))

EQV = z3.Function('rel_eqv', I, I, B)


def datums(how):
    def f(c):
        def eqv(ex, st, args, ins, f):
            a = [simp(ex.ptrval(x)) for x in args]
            return ret(st, If(EQV(*a), z3.Int('OBJ_bool_true'), z3.Int('OBJ_bool_false')))
        c.ex.builtins['scm_c_is_eqv'] = eqv
        c.ex.builtins['_eqv'] = lambda ex, st, args, ins, f: ret(st, EQV(*[simp(ex.ptrval(x)) for x in args]))
        c.ex.note_assume('scm_c_is_eqv is used through its contract (verified under C05)')
        k = c.any('key')
        if how == 'empty':
            c.args = [k.p, IntVal(0)]
            c.post(lambda r: [('nothing is among no datums', Not(r.v) if z3.is_bool(r.v) else r.v == 0)])
            return
        L = c.list_cells('datums')
        c.args = [k.p, L.W(IntVal(0))]
        w = z3.Int('w')
        same = lambda j: Or(EQV(k.p, L.D(j)), EQV(L.D(j), k.p))
        c.st.fact(IdxFact(IntVal(0), L.n, lambda j: EQV(k.p, L.D(j)) == EQV(L.D(j), k.p), 'eqv? is symmetric'))
        if how == 'in':
            c.assume(w >= 0, w < L.n, same(w))
            c.st.addidx(w)
        else:
            c.st.fact(IdxFact(IntVal(0), L.n, lambda j: Not(same(j)), 'not among the datums'))
        b = lambda v: v if z3.is_bool(v) else v != 0
        c.post(lambda r: [('eqv? to a datum', b(r.v) if how == 'in' else Not(b(r.v)), dict(idx=[w]))])
    return f


S_.add(VID, 'a value eqv? to some datum of the clause is among them', datums('in'))
S_.add(VID, 'a value eqv? to none of the datums is not among them', datums('out'))
S_.add(VID, 'nothing is among no datums', datums('empty'))


def conform(G):
    G.pre("(define tr '())\n(define (T x) (set! tr (cons x tr)) x)\n(define (N k v) (set! tr (cons k tr)) v)\n(define (run th) (set! tr '()) (let ((v (th))) (list v (reverse tr))))")
    vals = [('#f', '#f'), ('#t', '#t'), ('0', '0'), ("'()", '()'), ('""', '""'), ("'a", 'a'), ("'(1)", '(1)'), ('0.0', '0.0'), ('#\\a', '#\\a'), ('(vector)', '#()')]
    r = G.rng

    def N(k, v):
        return '(N %d %s)' % (k, v)
    for v, s in vals:
        t = v != '#f'
        G.case("(run (lambda () (if %s %s %s)))" % (N(1, v), N(2, "'t"), N(3, "'e")), '(%s (1 %d))' % ('t' if t else 'e', 2 if t else 3))
        G.case("(run (lambda () (cond (%s %s) (else %s))))" % (N(1, v), N(2, "'t"), N(3, "'e")), '(%s (1 %d))' % ('t' if t else 'e', 2 if t else 3))
        G.case("(run (lambda () (if %s %s) (N 4 4)))" % (N(1, v), N(2, "'t")), '(4 (1 %s4))' % ('2 ' if t else ''))
        G.case("(quote %s)" % s if v[0] != '"' else v, s)
        G.case("(begin %s)" % v, s)
        G.case('(let ((x 1)) (set! x %s) x)' % v, s)
        G.case('(let () (define x %s) x)' % v, s)
        G.case("(cond (%s => (lambda (x) (list x 'got))) (else 'no))" % v, '(%s got)' % s if t else 'no')
        G.case("(cond (%s) (else 'no))" % v, s if t else 'no')
    for n in range(0, G.n(7, 9)):
        for k in range(-1, n):
            es = [N(i, '#f' if i != k else "'v") for i in range(n)]
            G.case('(run (lambda () (or %s)))' % ' '.join(es), '(%s (%s))' % ('v' if k >= 0 else '#f', ' '.join(str(i) for i in range(k + 1 if k >= 0 else n))))
            es = [N(i, "'v%d" % i if i != k else "#f") for i in range(n)]
            G.case('(run (lambda () (and %s)))' % ' '.join(es), '(%s (%s))' % ('#f' if k >= 0 else ('v%d' % (n - 1) if n else '#t'), ' '.join(str(i) for i in range(k + 1 if k >= 0 else n))))
            cl = ['(%s %s %s)' % (N(i, '#f' if i != k else "'v"), N(100 + i, "1"), N(200 + i, "'r%d" % i)) for i in range(n)]
            G.case('(run (lambda () (cond %s (else %s))))' % (' '.join(cl), N(99, "'e")), '(%s (%s))' % ('r%d' % k if k >= 0 else 'e', ' '.join(str(i) for i in range(k + 1 if k >= 0 else n)) + (' %d %d' % (100 + k, 200 + k) if k >= 0 else (' 99' if n else '99'))))
        if n:
            G.case('(run (lambda () (begin %s)))' % ' '.join(N(i, str(i * i)) for i in range(n)), '(%d (%s))' % ((n - 1) ** 2, ' '.join(map(str, range(n)))))
            G.case('(run (lambda () %s))' % ' '.join(N(i, str(i * i)) for i in range(n)), '(%d (%s))' % ((n - 1) ** 2, ' '.join(map(str, range(n)))))
            G.case('(run (lambda () (let () %s)))' % ' '.join(N(i, str(i * i)) for i in range(n)), '(%d (%s))' % ((n - 1) ** 2, ' '.join(map(str, range(n)))))
    from conform import OBJS
    for x, _ in OBJS:
        t = x != '#f'
        G.case("(let ((x %s)) (run (lambda () (eq? x (cond ((N 1 x)) (else 'no-test))))))" % x, '(%s (1))' % ('#t' if t else '#f'))
        G.case("(let ((x %s)) (run (lambda () (cond ((N 1 x) => (N 2 (lambda (y) (eq? x y)))) (else (N 3 'no))))))" % x, '(#t (1 2))' if t else '(no (1 3))')
        G.case("(let ((x %s)) (run (lambda () (eq? x (or #f (N 1 x) #f)))))" % x, '(%s (1))' % ('#t' if t else '#t'))
        G.case("(let ((x %s)) (run (lambda () (eq? x (and 1 (N 1 x))))))" % x, '(#t (1))')
        G.case("(let ((x %s)) (run (lambda () (and (N 1 x) (N 2 'y)))))" % x, '(y (1 2))' if t else '(#f (1))')
        G.case("(let ((x %s)) (run (lambda () (if (N 1 x) (N 2 'y) (N 3 'z)))))" % x, '(y (1 2))' if t else '(z (1 3))')
        G.case("(let ((x %s)) (run (lambda () (eq? x (begin (N 1 1) (N 2 x))))))" % x, '(#t (1 2))')
        G.case("(let ((x %s)) (run (lambda () (eq? x (case (N 1 5) ((5) (N 2 1) (N 3 x)) (else 1))))))" % x, '(#t (1 2 3))')
        G.case("(let ((x %s)) (run (lambda () (case (N 1 x) ((no-such) (N 2 1)) (else (N 3 'e))))))" % x, '(e (1 3))')
        G.case("(let ((x %s)) (eq? x ((lambda () 1 x))))" % x, '#t')
        G.case("(let ((y %s)) (define x 0) (set! x y) (eq? x y))" % x, '#t')
    for n in range(1, 5):
        for k in range(n + 1):
            G.case("(run (lambda () (cond %s (else (N 99 'e)))))" % ' '.join("((N %d %s) => (N %d (lambda (y) (N %d (list y 'r)))))" % (i, 7 + i if i == k else '#f', 10 + i, 20 + i) for i in range(n)),
                   '((%d r) (%s %d %d))' % (7 + k, ' '.join(map(str, range(k + 1))), 10 + k, 20 + k) if k < n else '(e (%s 99))' % ' '.join(map(str, range(n))))
    cases = [([1], 'a'), ([2, 3], 'b'), (['x', 'y', '#\\c'], 'c'), ([5, 6, 7, 8], 'd')]
    src = ' '.join('((%s) (N %d 0) (quote %s))' % (' '.join(map(str, k)), 10 + i, v) for i, (k, v) in enumerate(cases))
    for key in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, "'x", "'y", "'z", '#\\c', '#\\d', '"x"', "'()"]:
        hit = [(i, v) for i, (k, v) in enumerate(cases) if str(key).lstrip("'") in map(str, k)]
        G.case("(run (lambda () (case (N 0 %s) %s (else (N 99 0) 'e))))" % (key, src), '(%s (0 %d))' % (hit[0][1], 10 + hit[0][0]) if hit else '(e (0 99))')
    eqvs = [("'(1)", '((1))', False), ("(vector 1)", '(#(1))', False), ("''a", '((quote a))', False), ('2.5', '(1 2.5)', True), ("(list)", '(())', None), ('#t', '(#f #t)', True), ('#f', '(#f)', True),
            ("'((1 2) 3)", '(((1 2) 3) 3)', False), ('(list 1 2)', '((1 2) (2 1))', False), ('10000000000', '(1 10000000000)', True)]
    for k, ds, hit in eqvs:
        if hit is not None:
            G.case("(run (lambda () (case (N 0 %s) ((zz) (N 1 1)) (%s (N 2 'in)) (else (N 3 'out)))))" % (k, ds), '(in (0 2))' if hit else '(out (0 3))')
            G.case("(run (lambda () (case (N 0 %s) (%s (N 2 'in)))))" % (k, ds), '(in (0 2))' if hit else '(#f (0))')
    for x, s in vals:
        G.case('(let ((f (lambda (y) %s))) (f 1))' % x, s)
    G.case("(let ((x 1)) (define (f) x) (let ((x 2)) (f)))", '1')
    G.case("(let ((x 1)) (define (f) (set! x (+ x 1)) x) (let ((x 20)) (f) (f) (list x (f))))", '(20 4)')
    G.case("(run (lambda () (let ((a (T 1)) (b (T 2)) (c (T 3))) (list a b c))))", '((1 2 3) (1 2 3))')
    G.case("(run (lambda () (let* ((a (T 1)) (b (T (+ a 1))) (c (T (+ b 1)))) (list a b c))))", '((1 2 3) (1 2 3))')
    G.case("(run (lambda () (list (T 1) (T 2) (T 3))))", lambda g: g.startswith('((1 2 3) '))
    G.case("(run (lambda () (when (T #f) (T 2)) 5))", '(5 (#f))') if False else None
