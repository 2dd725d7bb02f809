"""catch and throw: an error goes to the innermost active catch whose tag matches"""
from dsl import *
from evalmodel import havoc, PRESERVED, Event, opaque as oq
from builtin_fns import bi_err
S_ = Specs()
ST, SC = 'C:scm_throw/2', 'C:scm_c_catch/5'
KEY = 'mem8'


def gvar(c, name):
    mod = [m for m in c.ex.prog.modules if name in m.globals][0]
    return IntVal(c.ex.prog.global_addr(mod, name))


def top(c):
    return gvar(c, '@_ZL17g_catch_stack_top')


def startval(c, w, v):
    t = simp(Select(init0(KEY), w))
    c.assume(t == v)
    c.ex.alias[t.get_id()] = (t, v)


# ---------------------------------------------------------------- catch
def caught(c, thrown, tag='sym', more=False):
    c.nodebug()
    t = c.sym('tag') if tag == 'sym' else c.bool('tag')
    if tag != 'sym':
        c.assume(t.v != 0)
    th, ha = c.typed('thunk', 'PROC'), c.typed('handler', 'PROC')
    c.th, c.ha, c.tag = th, ha, t
    outer, chain = z3.Int('outercatch'), z3.Int('chain0')
    c.assume(outer >= 0, outer < c.A0, chain >= 0, chain < c.A0)
    startval(c, top(c), outer)
    startval(c, gvar(c, '@g_wind_chain'), chain)
    c.outer, c.chain0 = outer, chain
    c.opaque(apply_procedure=1, apply_procedure_with_values=1, unwind_wind_chain=dict(nullable=True))
    JB = 'jmp_buf_and_retval'

    def setjmp(ex, st, args, ins, f):
        b = simp(ex.ptrval(args[0]))
        if not thrown:
            return [('ret', st, IntVal(0), '')]
        # the second return: anything has happened since, a throw left its key and arguments here
        g = top(c)
        info = ex.read(st, KEY, g)
        havoc(ex, st, PRESERVED)
        ex.write(st, KEY, g, info)
        for k, v in (('throw_tag', c.K.p), ('throw_args', P(c.TA))):
            ex.write(st, JB + '.' + k, b, v)
        return [('ret', st, IntVal(1), '')]
    for n in ('_setjmp', 'setjmp', '@_setjmp', '@setjmp', '__sigsetjmp'):
        c.ex.builtins[n] = setjmp
    if more:
        c.args = [t, th, ha]
    c.call(t, th, ha)
    c.modifies('any')


def normal(tag):
    def f(c):
        caught(c, False, tag)

        def at(R, args, k):
            i = R.get(KEY, top(c))
            jb = R.get('catch_info.jbr', i)
            yield 'the thunk of the call, without arguments', And(args[1] == c.th.v, args[2] == 0), {}
            yield 'a catch with this tag is innermost while it runs', And(i != 0, R.get('catch_info.tag', i) == c.tag.p), {}
            yield 'enclosed by the catches around', R.get('catch_info.prev', i) == c.outer, {}
            yield 'which remembers the dynamic-winds outside', R.get('catch_info.wind_chain', i) == c.chain0, {}
            yield 'and is active', R.get('jmp_buf_and_retval.active', jb) != 0, {}
        c.atcall('apply_procedure', at)

        def post(r):
            evs = list(r.ev)
            ok = [e.name for e in evs] == ['apply_procedure']
            yield 'the thunk runs once, the handler never', BoolVal(ok), {}
            if ok:
                yield 'its value is returned', r.v == evs[0].res, {}
            yield 'the catch is not active any more', r.get(KEY, top(c)) == c.outer, {}
        c.post(post)
    return f


for _t, _n in (('sym', 'a symbol as tag'), ('bool', '#t as tag')):
    S_.add('catch', 'nothing thrown: the thunk runs once inside the new catch, its value is returned (%s)' % _n, normal(_t))


class HArgs:
    def __init__(s, c, L):
        s.c, s.L = c, L


def thrown(kind):
    def f(c):
        c.K = c.sym('key')
        if kind == 'list':
            L = c.TA = c.lst('targs')
            n = simp(L.n + 1)
            elem = lambda i: simp(If(i == 0, c.K.p, L.D(simp(i - 1))))
        elif kind == 'nil':
            c.TA = O(z3.Int('OBJ_nil'))
            n, elem = IntVal(1), (lambda i: c.K.p)
        caught(c, True)

        def at(R, args, k):
            yield 'the handler', And(args[1] == c.ha.v), {}
            yield 'the handler runs outside of its own catch', R.get(KEY, top(c)) == c.outer, {}
            for x in R.cells_are(R.st, args[2], n, elem, name='the handler gets the key and the arguments thrown'):
                yield x if len(x) > 2 else (x[0], x[1], {})
        c.atcall('apply_procedure_with_values', at)

        def post(r):
            evs = list(r.ev)
            ok = [e.name for e in evs] == ['unwind_wind_chain', 'apply_procedure_with_values']
            yield 'the dynamic-winds are left, then the handler runs, once', BoolVal(ok), {}
            if ok:
                yield 'down to those around the catch', evs[0].args[0] == c.chain0, {}
                yield 'the value of the handler is returned', r.v == evs[1].res, {}
        c.post(post)
    return f


S_.add('catch', 'thrown to: winds are left, the handler gets the key and every argument outside of the catch, its value is returned', thrown('list'))
S_.add('catch', 'thrown to without arguments: the handler gets the key alone', thrown('nil'))


def bad(mk, names):
    def f(c):
        c.nodebug()
        c.opaque(apply_procedure=1, apply_procedure_with_values=1, unwind_wind_chain=dict(nullable=True))
        c.call(*[g(c) for g in mk])
        c.err()
    S_.add('catch', names, f)


SYM, PR = (lambda c: c.sym('tag')), (lambda c: c.typed('p', 'PROC'))
bad([lambda c: c.not_('tag', 'SYM', 'BOOL'), PR, PR], 'a tag that is neither a symbol nor #t is an error')
bad([lambda c: P_false(c), PR, PR], 'the tag #f is an error')
bad([SYM, lambda c: c.not_('thunk', 'PROC'), PR], 'a thunk that is not a procedure is an error before anything runs')
bad([SYM, PR, lambda c: c.not_('handler', 'PROC')], 'a handler that is not a procedure is an error before anything runs')
bad([SYM, PR], 'two operands are an error')
bad([SYM], 'one operand is an error')
bad([], 'no operand is an error')


def P_false(c):
    t = c.bool('tag')
    c.assume(t.v == 0)
    return t


# ---------------------------------------------------------------- throw
def throw(n):
    """(throw key a ...)"""
    def f(c):
        c.nodebug()
        K = c.sym('key')

        def at(R, args, k):
            yield 'the key', args[0] == (K.p if n is not None else L.D(IntVal(0))), {}
            if n is None:
                a = args[1]
                yield 'the arguments are a list', And(a != 0, R.get('SCM.type', a) == T['LIST']), {}
                yield from (x if len(x) > 2 else (x[0], x[1], {}) for x in R.cells_are(R.st, R.get('SCM.value', a), simp(L.n - 1), lambda i: L.D(simp(i + 1)), name='every argument, in order'))
            else:
                yield 'the empty list', args[1] == z3.Int('OBJ_nil'), {}
        c.ex.builtins['scm_throw'] = bi_err
        c.atcall('scm_throw', at)
        if n is None:
            L = c.args_list(minlen=2)
            c.assume(c.type0(L.D(IntVal(0)), 'SYM'))
        else:
            c.call(K)
        c.err()
    return f


S_.add('throw', 'the key and every argument, in order, are thrown', throw(None))
S_.add('throw', 'the key alone', throw(0))


@S_('throw', 'a key that is not a symbol is an error')
def _(c):
    c.nodebug()
    c.ex.builtins['scm_throw'] = bi_ok
    c.call(c.not_('key', 'SYM'), c.any('a'))
    c.err()


@S_('throw', 'without a key it is an error')
def _(c):
    c.nodebug()
    c.ex.builtins['scm_throw'] = bi_ok
    c.call()
    c.err()


def bi_ok(ex, st, args, ins, f):
    return [('ret', st, IntVal(0), '')]


# ---------------------------------------------------------------- where a throw goes
def search(found, empty=False):
    def f(c):
        c.nodebug()
        K = c.sym('key')
        w = c.list_cells('winds')
        c.st.fact(IdxFact(IntVal(0), w.n, lambda j: winds(c, w, j), 'winds'))
        startval(c, gvar(c, '@g_wind_chain'), w.W(IntVal(0)))
        t = top(c)
        J = lambda x: c.get('catch_info.jbr', x)
        c.ex.builtins['strcmp'] = c.ex.builtins['@strcmp'] = strcmp(c, K)
        if empty:
            startval(c, t, IntVal(0))
            CH = None
        else:
            tagof = z3.Function('tagof', I, I)
            CH = c.chain('catches', 'catch_info.prev', {'catch_info.tag': tagof})
            startval(c, t, CH.W(IntVal(0)))

            def matches(j):
                x = CH.W(j)
                tg = c.get('catch_info.tag', x)
                ac = And(J(x) != 0, c.get('jmp_buf_and_retval.active', J(x)) != 0)
                return And(ac, Or(And(c.type0(tg, 'BOOL'), c.get('SCM.value', tg) != 0), And(c.type0(tg, 'SYM'), same(c, tg, K))))

            def well(j):
                x = CH.W(j)
                tg = tagof(j)
                return And(tg > 0, tg < c.A0, c.get('catch_info.tag', x) == tg, J(x) >= 0, J(x) < c.A0, Or(c.type0(tg, 'SYM'), c.type0(tg, 'BOOL')),
                           c.get('SCM.value', tg) >= 0, Or(*[c.get('jmp_buf_and_retval.active', J(x)) == b for b in (0, 1)]), Implies(c.type0(tg, 'SYM'), And(c.get('SCM.value', tg) > 0, c.get('SCM.value', tg) < c.A0)))
            c.st.fact(IdxFact(IntVal(0), CH.n, well, 'catches'))
            if found:
                h = z3.Int('innermost')
                c.assume(h >= 0, h < CH.n, matches(h))
                c.st.fact(IdxFact(IntVal(0), h, lambda j: Not(matches(j)), 'no catch further in matches'))
                c.st.addidx(h)
            else:
                c.st.fact(IdxFact(IntVal(0), CH.n, lambda j: Not(matches(j)), 'no catch matches'))
        A = c.any('targs')
        c.ex.builtins['<indirect>'] = lambda ex, st, args, ins, f: [('abort', st, None, 'runs something else')]
        c.args = [K.p, A.p]
        good, badc = ('longjmp', 'scm_uncaught_throw') if found else ('scm_uncaught_throw', 'longjmp')
        def leave(ex, st, args, ins, f):
            st.ghost['ev'] = st.ghost.get('ev', ()) + (Event(good, tuple(simp(ex.ptrval(a)) for a in args), IntVal(0), IntVal(0), IntVal(0)),)
            return bi_err(ex, st, args, ins, f)
        for p in ('', '@'):
            c.ex.builtins[p + good] = leave
            c.ex.builtins[p + badc] = lambda ex, st, args, ins, f: [('abort', st, None, 'goes to the wrong place')]

        def at(R):
            evs = [e for e in R.ev if isinstance(e, Event)]
            if len(evs) != 1 or len(R.ev) != 1:
                yield 'one exit', BoolVal(False), {}
                return
            args = evs[0].args
            if found:
                yield 'the jump goes to the innermost active catch that matches', args[0] == J(CH.W(h)), dict(idx=[h])
                yield 'with the key', R.get('jmp_buf_and_retval.throw_tag', J(CH.W(h))) == K.p, dict(idx=[h])
                yield 'and the arguments', R.get('jmp_buf_and_retval.throw_args', J(CH.W(h))) == A.p, dict(idx=[h])
                yield 'that catch is innermost now', R.get(KEY, t) == CH.W(h), dict(idx=[h])
            else:
                yield 'key and arguments are reported', And(args[0] == K.p, args[1] == A.p), {}
        c.err(at)
    return f


def winds(c, w, j):
    d = w.D(j)
    v = c.get('SCM.value', d)
    b = c.get('SCM_List.data', v)
    return And(d > 0, d < c.A0, c.type0(d, 'LIST'), v > 0, v < c.A0, b > 0, b < c.A0, c.type0(b, 'PROC'))


SAME = z3.Function('same_spelling', I, I, z3.BoolSort())


def same(c, tg, K):
    return SAME(c.get('SCM.value', tg), K.v)


def strcmp(c, K):
    """spellings are compared as wholes (symbols hold no NUL)"""
    def h(ex, st, args, ins, f):
        a, b = (simp(ex.ptrval(x)) for x in args)
        r = simp(If(EQC(a, b), IntVal(0), IntVal(1)))
        return [('ret', st, r, '')]
    return h


EQC = z3.Function('equal_text', I, I, z3.BoolSort())


def same(c, tg, K):
    return EQC(c.get('SCM_Symbol.data', c.get('SCM.value', tg)), c.get('SCM_Symbol.data', K.v))


S_.add(ST, 'a throw goes to the innermost active catch whose tag is #t or the key, however deep, with key and arguments', search(True))
S_.add(ST, 'without a matching catch it is reported as uncaught', search(False))
S_.add(ST, 'without any catch it is reported as uncaught', search(False, True))


# ---------------------------------------------------------------- real runs
def conform(G):
    r = G.rng
    G.pre("""(define tr '())
(define (N k) (set! tr (cons k tr)) k)
(define (run th) (set! tr '()) (let ((v (th))) (list v (reverse tr))))""")
    keys = ['a', 'b', 'ab', 'misc-error', 'x' * 40, 'x' * 39 + 'y']
    for n in list(range(0, 6)) + [r.randrange(6, 70) for _ in range(3)]:
        for _ in range(G.n(4, 20)):
            tags = [r.choice(keys + ['#t']) for _ in range(n)]
            key = r.choice(keys)
            args = [str(r.randrange(100)) for _ in range(r.choice([0, 1, 2, 3, 9]))]
            # innermost is the last
            e = "(begin (N 'body) (throw '%s %s) (N 'not))" % (key, ' '.join(args))
            hit = None
            for i in range(n - 1, -1, -1):
                tg = '#t' if tags[i] == '#t' else "'" + tags[i]
                e = "(begin (N 'e%d) (catch %s (lambda () %s) (lambda (k . r) (N (list %d k)) (cons %d r))))" % (i, tg, e, i, i)
                if hit is None and tags[i] in ('#t', key):
                    hit = i
            full = "(run (lambda () (catch #t (lambda () %s) (lambda (k . r) (N 'outer) (cons k r)))))" % e
            pre = ' '.join('e%d' % i for i in range(n)) + (' ' if n else '') + 'body'
            if hit is None:
                G.case(full, '((%s) (%s outer))' % (' '.join([key] + args), pre))
            else:
                G.case(full, '((%s) (%s (%d %s)))' % (' '.join([str(hit)] + args), pre, hit, key))
    for v in ("'()", '#f', '"s"', '(list 1 2)', "'sym", '3.5'):
        G.case("(equal? %s (catch 'a (lambda () %s) (lambda (k . r) 'no)))" % (v, v), '#t')
        G.case("(equal? (list 'a %s %s) (catch 'a (lambda () (throw 'a %s %s)) (lambda r r)))" % (v, v, v, v), '#t')
        G.case("(equal? %s (catch 'a (lambda () (throw 'a)) (lambda (k . r) %s)))" % (v, v), '#t')
    # a handler runs outside of its own catch
    G.case("(catch 'a (lambda () (catch 'a (lambda () (throw 'a 1)) (lambda (k . r) (throw 'a 2)))) (lambda (k x) (list 'outer x)))", '(outer 2)')
    G.case("(catch 'a (lambda () (catch 'b (lambda () 1) (lambda (k . r) 2)) (throw 'a 3)) (lambda (k x) (list 'outer x)))", '(outer 3)')
    G.case("(catch 'a (lambda () (catch 'a (lambda () (throw 'a 1)) (lambda (k . r) 2)) (throw 'a 3)) (lambda (k x) (list 'outer x)))", '(outer 3)')
    G.case("(run (lambda () (catch 'a (lambda () (dynamic-wind (lambda () (N 'in)) (lambda () (throw 'a)) (lambda () (N 'out)))) (lambda (k) (N 'h) 5))))", '(5 (in out h))')
    G.case("(run (lambda () (dynamic-wind (lambda () (N 'in)) (lambda () (catch 'a (lambda () (throw 'a)) (lambda (k) (N 'h) 5))) (lambda () (N 'out)))))", '(5 (in h out))')
    G.case("(let loop ((i 0) (s 0)) (if (= i 300) s (loop (+ i 1) (+ s (catch 'a (lambda () (if (even? i) (throw 'a i) 1)) (lambda (k x) x))))))", str(sum(i if i % 2 == 0 else 1 for i in range(300))))
    for e in ("(catch)", "(catch 'a)", "(catch 'a (lambda () 1))", "(catch #f (lambda () 1) (lambda (k) 2))", "(catch 5 (lambda () 1) (lambda (k) 2))", '(catch "a" (lambda () 1) (lambda (k) 2))',
              "(catch 'a 5 (lambda (k) 2))", "(catch 'a (lambda () 1) 5)", "(throw)", "(throw 5)", '(throw "a" 1)', "(throw #t)"):
        G.err(e)
    # errors signalled by the primitives arrive like throws
    for e in ("(car 5)", "(vector-ref (vector 1 2) 9)", "(no-such-variable)", "(+ 'a 1)", "((lambda (x) x))", "(string-ref \"ab\" 7)", "(error 'x \"boom\")"):
        G.case("(run (lambda () (catch #t (lambda () (N 'in) %s (N 'not)) (lambda (k . r) (N 'h) (symbol? k)))))" % e, '(#t (in h))')
        G.case("(run (lambda () (catch #t (lambda () (catch 'other (lambda () (N 'in) %s (N 'not)) (lambda (k . r) (N 'wrong)))) (lambda (k . r) (N 'h) 7))))" % e, '(7 (in h))')
        G.case("(run (lambda () (catch #t (lambda () (dynamic-wind (lambda () (N 'in)) (lambda () %s) (lambda () (N 'out)))) (lambda (k . r) (N 'h) 7))))" % e, '(7 (in out h))')
