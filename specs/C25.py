from dsl import *
S_ = Specs()


def vv(c, n='v'):
    v = c.typed(n, 'VARIABLE')
    v.val = c.get('SCM_Variable.value', v.v)
    return v


@S_('make-variable', 'a fresh cell holding the value')
def _(c):
    x = c.any('x')
    c.call(x)
    c.post(lambda r: [('fresh variable', And(r.is_('VARIABLE'), r.v >= c.A0, r.value >= c.A0)), ('holds x', r.get('SCM_Variable.value', r.value) == x.p)])


@S_('make-undefined-variable', 'a fresh unbound cell')
def _(c):
    c.call()
    c.post(lambda r: [('fresh variable', And(r.is_('VARIABLE'), r.v >= c.A0)), ('unbound', r.get('SCM_Variable.value', r.value) == 0)])


@S_('variable-ref', 'bound: the value')
def _(c):
    v = vv(c)
    c.assume(v.val != 0)
    c.call(v)
    c.post(lambda r: [('value', r.v == v.val)])


@S_('variable-ref', 'unbound is an error')
def _(c):
    v = vv(c)
    c.assume(v.val == 0)
    c.call(v)
    c.err()


@S_('variable-set!', 'updates exactly that cell')
def _(c):
    v, x = vv(c), c.any('x')
    c.call(v, x)
    c.post(lambda r: [('holds x', r.get('SCM_Variable.value', v.v) == x.p)])
    c.modifies(lambda r: [('SCM_Variable.value', v.v)])


@S_('variable-bound?', 'true exactly when it has a value')
def _(c):
    v = vv(c)
    c.call(v)
    c.post(lambda r: [('bound', r.is_bool(v.val != 0))])


for nm, n in (('variable-ref', 1), ('variable-set!', 2), ('variable-bound?', 1)):
    def f(c, n=n):
        c.call(*([c.not_('v', 'VARIABLE')] + [c.any('x')] * (n - 1)))
        c.err()
    S_.add(nm, 'non-variable is an error', f)


def conform(G):
    from conform import OBJS
    for x, _ in OBJS:
        for e in ('(variable-ref (make-variable x))', '(let ((v (make-variable 0))) (variable-set! v x) (variable-ref v))', '(let ((v (make-undefined-variable))) (variable-set! v x) (variable-ref v))', '(let ((v (make-variable x)) (u (make-variable 5))) (variable-set! u 7) (variable-ref v))'):
            G.case('(let ((x %s)) (eq? x %s))' % (x, e), '#t')
        G.case('(variable-bound? (make-variable %s))' % x, '#t')
        G.case('(let ((v (make-undefined-variable))) (variable-set! v %s) (variable-bound? v))' % x, '#t')
    for x in ['0', '-7', '#t', '#f', "'a", '"s"', "'(1 2)", "'()", '(vector 1)', '1.5', '#\\a', '(/ 1 2)']:
        s = {"'a": 'a', "'(1 2)": '(1 2)', "'()": '()', '(vector 1)': '#(1)', '(/ 1 2)': '1/2'}.get(x, x)
        G.case('(variable-ref (make-variable %s))' % x, s)
        G.case('(variable-bound? (make-variable %s))' % x, '#t')
        G.case("(let ((v (make-undefined-variable)) (u (make-undefined-variable))) (variable-set! v %s) (list (variable-ref v) (variable-bound? v) (variable-bound? u)))" % x, '(%s #t #f)' % s)
        G.case("(let* ((v (make-variable 1)) (u (make-variable 1)) (w v)) (variable-set! v %s) (list (variable-ref v) (variable-ref u) (eq? v w) (eq? u v) (equal? (variable-ref v) (variable-ref w))))" % x, '(%s 1 #t #f #t)' % s)
        G.case("(let* ((v (make-variable (make-variable %s)))) (variable-ref (variable-ref v)))" % x, s)
        G.err('(variable-ref %s)' % x)
        G.err('(variable-set! %s 1)' % x)
        G.err('(variable-bound? %s)' % x)
        G.case('(variable? %s)' % x, '#f')
    G.err('(variable-ref (make-undefined-variable))')
    G.case('(variable-bound? (make-undefined-variable))', '#f')
    G.case('(variable? (make-undefined-variable))', '#t')
    G.case("(let ((vs (map (lambda (i) (make-variable i)) '(1 2 3 4 5 6 7 8 9)))) (for-each (lambda (v) (variable-set! v (* 2 (variable-ref v)))) vs) (map variable-ref vs))", '(2 4 6 8 10 12 14 16 18)')
    G.case("(let ((v (make-variable 1))) (do ((i 0 (+ i 1))) ((= i 1000) (variable-ref v)) (variable-set! v (+ 1 (variable-ref v)))))", '1001')
