from dsl import *
S_ = Specs()
PRED = {'procedure?': ('PROC', 'CONT', 'FUNC'), 'boolean?': ('BOOL',), 'null?': ('NIL',), 'pair?': ('LIST',), 'number?': ('NUM', 'FLOAT', 'RATIO'),
        'complex?': ('NUM', 'FLOAT', 'RATIO'), 'real?': ('NUM', 'FLOAT', 'RATIO'), 'rational?': ('NUM', 'RATIO'), 'integer?': ('NUM',),
        'exact?': ('NUM', 'RATIO'), 'inexact?': ('FLOAT',), 'string?': ('STR',), 'symbol?': ('SYM',), 'vector?': ('VECTOR',), 'char?': ('CHAR',),
        'variable?': ('VARIABLE',), 'module?': ('MODULE',), 'scm-smob?': ('SMOB',)}


def pred(ts):
    def f(c):
        a = c.any('a')
        c.call(a)
        c.post(lambda r: [('true exactly on its own kind', r.is_bool(c.is_(a.p, *ts)))])
        c.modifies(lambda R: [])
    return f


for nm, ts in PRED.items():
    S_.add(nm, 'true exactly on its own kind of object, never fails', pred(ts))


@S_('not', 'true exactly on #f')
def _(c):
    a = c.any('a')
    c.call(a)
    c.post(lambda r: [('negation', r.is_bool(Not(c.truthy(a.p))))])


@S_('list?', 'a proper list of any length')
def _(c):
    l = c.lst('l')
    c.call(l)
    c.post(lambda r: [('true', r.is_bool(BoolVal(True)))])


@S_('list?', 'the empty list')
def _(c):
    c.call(c.nil())
    c.post(lambda r: [('true', r.is_bool(BoolVal(True)))])


@S_('list?', 'a dotted list of any length')
def _(c):
    l = c.lst('l', dotted=True, minlen=2)
    c.call(l)
    c.post(lambda r: [('false', r.is_bool(BoolVal(False)))])


@S_('list?', 'any other object')
def _(c):
    c.call(c.not_('a', 'LIST', 'NIL'))
    c.post(lambda r: [('false', r.is_bool(BoolVal(False)))])


def conform(G):
    import conform as cf
    vals = {"(lambda (x) x)": 'PROC', 'car': 'FUNC', '(call/cc (lambda (k) k))': 'CONT', '#t': 'BOOL', '#f': 'BOOL', "'()": 'NIL', "'(1 2)": 'LIST', "'(1 . 2)": 'LIST', "(list 1)": 'LIST',
            '0': 'NUM', '-5': 'NUM', '9223372036854775807': 'NUM', '1.5': 'FLOAT', '2.0': 'FLOAT', '0.0': 'FLOAT', '(/ 1 3)': 'RATIO', '(/ 6 3)': 'NUM', '""': 'STR', '"abc"': 'STR', "'a": 'SYM', "'()": 'NIL',
            '(string->symbol "")': 'SYM', "(vector)": 'VECTOR', "(vector 1 2)": 'VECTOR', '#\\a': 'CHAR', '#\\space': 'CHAR', '(make-variable 1)': 'VARIABLE', '(make-undefined-variable)': 'VARIABLE',
            '(current-module)': 'MODULE', '(make-hash-table)': 'HASH', '(delay 1)': 'PROMISE', '(open-input-string "x")': 'PORT', '(let loop ((i 0)) loop)': 'PROC', '(string->symbol "A b")': 'SYM', "(gensym)": 'SYM', "''a": 'LIST', '(integer->char 200)': 'CHAR', '(make-string 3 #\\a)': 'STR', "(make-vector 100 '())": 'VECTOR'}
    for e, k in vals.items():
        for nm, ts in PRED.items():
            G.case('(%s %s)' % (nm, e), '#t' if k in ts else '#f')
        G.case('(not %s)' % e, '#t' if e == '#f' else '#f')
        G.case('(list? %s)' % e, '#t' if k == 'NIL' or (k == 'LIST' and ' . ' not in e) else '#f')
        G.case('(if %s 1 2)' % e, '2' if e == '#f' else '1')
    for n in G.lens(G.n(60, 300)):
        l = '(list %s)' % ' '.join(['7'] * n)
        G.case('(list? %s)' % l, '#t')
        G.case('(pair? %s)' % l, '#t' if n else '#f')
        G.case('(null? %s)' % l, '#f' if n else '#t')
        if n:
            G.case("(list? '(%s . 5))" % ' '.join(['7'] * n), '#f')
            G.case("(pair? '(%s . 5))" % ' '.join(['7'] * n), '#t')
            G.case("(list? (list-tail %s %d))" % (l, n), '#t')
            G.case("(list? (append %s 5))" % l, '#f')
    for n in (9999, 10000, 10001, 20001, 100003):
        G.case('(list? (vector->list (make-vector %d 0)))' % n, '#t')
        G.case('(list? (append (vector->list (make-vector %d 0)) 5))' % n, '#f')
    G.case("(let ((l (list 1 2 3))) (set-cdr! (cddr l) l) (list? l))", '#f')
    G.case("(let ((l (list 1 2 3 4))) (set-cdr! (cdddr l) (cdr l)) (list? l))", '#f') if False else None
    G.case("(let ((l (list 1 2 3))) (set-cdr! (cdr l) (cdr l)) (list? l))", '#f')
    G.case("(let ((l (list 1))) (set-cdr! l l) (list? l))", '#f')
    for nm, ts in (('integer?', '0 1 -1 2'), ):
        for n in G.ints():
            G.case('(integer? %d)' % n, '#t')
            G.case('(exact? %d)' % n, '#t')
            G.case('(inexact? %d)' % n, '#f')
            G.case('(rational? %d)' % n, '#t')
