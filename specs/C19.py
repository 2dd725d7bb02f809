from dsl import *
S_ = Specs()


def prom(c, forced=None, thunk=None):
    p = c.typed('p', 'PROMISE')
    p.forced = c.get('SCM_Promise.is_forced', p.v)
    p.val = c.get('SCM_Promise.value', p.v)
    p.thunk = c.get('SCM_Promise.thunk', p.v)
    if forced is not None:
        c.assume(p.forced == forced)
    if forced == 1:
        c.assume(p.val > 0)
    else:
        c.assume(p.thunk > 0)
        if thunk:
            c.assume(c.is_(p.thunk, thunk))
    return p


CALLEES = dict(apply_procedure=1, apply_procedure_with_values=1, eval_with_func=1, eval_with_env=1, scm_call_0=1)


@S_('force', 'an already forced promise returns the cached value without running anything')
def _(c):
    p = prom(c, 1)
    c.opaque(**CALLEES)
    c.call(p)
    c.post(lambda r: [('cached value', r.v == p.val), ('the delayed expression is not run again', BoolVal(len(r.ev) == 0))])


def first(kind):
    def f(c):
        p = prom(c, 0, kind)
        c.opaque(**CALLEES)
        c.call(p)

        def post(r):
            yield 'the delayed expression is run exactly once', BoolVal(len(r.ev) == 1)
            if len(r.ev) != 1:
                return
            e = r.ev[0]
            # the state right after the delayed expression finished
            f1 = z3.Select(e.extra['SCM_Promise.is_forced'], p.v)
            v1 = z3.Select(e.extra['SCM_Promise.value'], p.v)
            yield 'a value stored by a re-entrant force wins', Implies(f1 != 0, r.v == v1)
            yield 'otherwise the computed value is returned', Implies(f1 == 0, r.v == e.res)
            yield 'the promise is forced afterwards', r.get('SCM_Promise.is_forced', p.v) != 0
            yield 'the promise caches the returned value', r.get('SCM_Promise.value', p.v) == r.v
        c.post(post)
        c.modifies('any')
    return f


S_.add('force', 'first force of a delayed expression (re-entrancy included)', first('PROC'))
S_.add('force', 'first force of a promise around a primitive', first('FUNC'))


@S_('force', 'non-promise is an error')
def _(c):
    c.call(c.not_('p', 'PROMISE'))
    c.err()


@S_('C:eval_delay/2', 'delay builds an unforced promise and evaluates nothing')
def _(c):
    e = c.any('expr')
    a = c.ast('form', c.any('head'), e)
    env = c.env()
    c.opaque(**CALLEES)
    c.args = [env, a.cells[0]]

    def post(r):
        yield 'is a fresh promise', And(r.is_('PROMISE'), r.v >= c.A0, r.value >= c.A0)
        yield 'not forced', r.get('SCM_Promise.is_forced', r.value) == 0
        th = r.get('SCM_Promise.thunk', r.value)
        yield 'thunk is a procedure', r.is_('PROC', th)
        pr = r.get('SCM.value', th)
        yield 'without parameters', r.get('SCM_Procedure.args', pr) == 0
        yield 'closing over the current environment', r.get('SCM_Procedure.env', pr) == env
        b = r.get('SCM_Procedure.body', pr)
        yield 'whose body is the expression', And(b != 0, r.get('SCM_List.data', b) == e.p, r.get('SCM_List.next', b) == 0)
        yield 'nothing is evaluated', BoolVal(len(r.ev) == 0)
    c.post(post)


def conform(G):
    from conform import OBJS
    for x, _ in OBJS:
        G.case('(let* ((x %s) (n 0) (p (delay (begin (set! n (+ n 1)) x)))) (and (eq? x (force p)) (eq? x (force p)) (eq? x (force p)) n))' % x, '1')
        G.case('(let* ((x %s) (p (delay x)) (q (delay x))) (and (eq? x (force p)) (eq? x (force q)) (eq? p q)))' % x, '#f')
    for x, s in (('5', '5'), ("'a", 'a'), ("'()", '()'), ("(list 1 2)", '(1 2)'), ('#f', '#f'), ('#t', '#t'), ('(+ 1 2)', '3'), ('"s"', '"s"'), ('(vector)', '#()')):
        G.case('(force (delay %s))' % x, s)
        G.case('(let* ((n 0) (p (delay (begin (set! n (+ n 1)) %s)))) (let* ((a (force p)) (b (force p)) (c (force p))) (list a b c n)))' % x, '(%s %s %s 1)' % (s, s, s))
        G.case('(let* ((n 0) (p (delay (begin (set! n (+ n 1)) %s)))) n)' % x, '0')
        G.case('(let* ((p (delay (list %s)))) (eq? (force p) (force p)))' % x, '#t')
        G.case('(let ((p (delay (delay %s)))) (force (force p)))' % x, s)
        G.err('(force %s)' % x)
    # re-entrancy (R5RS 6.4): the first value stored wins
    for d in (1, 2, 3, 4, 5, 8):
        G.case('(let ((count 0) (x %d) (p #f)) (set! p (delay (begin (set! count (+ count 1)) (if (> count x) count (force p))))) (let* ((a (force p)) (b (begin (set! x 100) (force p)))) (list a b count)))' % d, '(%d %d %d)' % (d + 1, d + 1, d + 1))
        G.case("(let ((q #f) (n 0)) (set! q (delay (begin (set! n (+ n 1)) (if (< n %d) (begin (force q) 'outer) 'inner)))) (let* ((a (force q)) (b (force q))) (list a b n)))" % (d + 1), '(inner inner %d)' % (d + 1))
    # an abandoned force leaves the promise unforced
    G.case("(let* ((n 0) (p (delay (begin (set! n (+ n 1)) (if (< n 3) (car '()) n))))) (define (t) (catch #t (lambda () (force p)) (lambda (k . a) 'E))) (let* ((a (t)) (b (t)) (c (t)) (d (t))) (list a b c d n)))", '(E E 3 3 3)')
    G.case("(let* ((n 0) (p (delay (begin (set! n (+ n 1)) (if (< n 2) (throw 'k) n))))) (define (t) (catch 'k (lambda () (force p)) (lambda (k . a) 'E))) (let* ((a (t)) (b (t)) (c (t))) (list a b c n)))", '(E 2 2 2)')
    # lexical scope of the delayed expression
    G.case('(let* ((y 1) (p (let ((y 2)) (delay (+ y 10))))) (let ((y 3)) (force p)))', '12')
    G.case('(let* ((y 1) (p (delay y))) (set! y 5) (let ((a (force p))) (set! y 6) (list a (force p))))', '(5 5)')
    G.case("(let* ((ps (map (lambda (i) (delay (* i i))) '(1 2 3 4 5)))) (map force ps))", '(1 4 9 16 25)')
    G.case("(let* ((s (let loop ((i 0)) (cons i (delay (loop (+ i 1))))))) (define (tk s n) (if (= n 0) '() (cons (car s) (tk (force (cdr s)) (- n 1))))) (let* ((a (tk s 12)) (b (tk s 12))) (list a (equal? a b))))" if False else "(let () (define (from i) (cons i (delay (from (+ i 1))))) (define (tk s n) (if (= n 0) '() (cons (car s) (tk (force (cdr s)) (- n 1))))) (let* ((s (from 0)) (a (tk s 12)) (b (tk s 12))) (list a (equal? a b))))", '((0 1 2 3 4 5 6 7 8 9 10 11) #t)')
    G.case("(force (delay (force (delay (force (delay 3))))))", '3')
    G.case("(let* ((p (delay 1)) (a (force p))) (list (promise? p) (promise? 1)))" if False else "(let* ((p (delay 1)) (a (force p))) a)", '1')
