"""values and call-with-values"""
from dsl import *
from evalmodel import Rep, Event, havoc, opaque as oq
from C27 import evaluating
S_ = Specs()
CW = 'C:eval_call_with_values/2'


@S_('values', 'all arguments, in order, in new cells')
def _(c):
    L = c.list_cells('args')
    c.args = [L.W(IntVal(0))]
    c.post(lambda r: r.list_is(L.n, L.D, fresh=True))


@S_('values', 'no arguments: no values')
def _(c):
    c.args = [IntVal(0)]
    c.post(lambda r: [('no values', r.is_('NIL'))])


def answers(c, name, v):
    """the call returns the given object (the values the producer produces)"""
    base = oq(name)

    def h(ex, st, args, ins, f):
        a = tuple(simp(ex.ptrval(x)) for x in args)
        node = None
        if name == 'eval_with_func':
            node = (ex.read(st, 'SCM_List.data', a[1]), ex.read(st, 'SCM_List.next', a[1]))
        if any(e.name == 'producer' for e in st.ghost.get('ev', ())):
            out = base(ex, st, args, ins, f)
            for o in out:
                e = o[1].ghost['ev'][-1]
                e.extra = dict(e.extra or {}, node=node)
            return out
        havoc(ex, st)
        e = Event('producer', a, v, IntVal(0), IntVal(0))
        e.extra = dict(node=node)
        st.ghost['ev'] = st.ghost.get('ev', ()) + (e,)
        return [('ret', st, v, '')]
    c.ex.builtins[name] = h


def setup(c, pt, ct, how):
    c.nodebug()
    pe, p = c.any('producerexpr'), c.typed('producer', *([pt] if isinstance(pt, str) else pt))
    ce, q = c.any('consumerexpr'), c.typed('consumer', *([ct] if isinstance(ct, str) else ct))
    c.assume(pe.p != ce.p)
    if how == 'list':
        V = c.lst('vals', minlen=1)
        head = V.W(IntVal(0)) if hasattr(V, 'W') else c.value(V.p)
    elif how == 'nil':
        V, head = c.typed('vals', 'NIL'), IntVal(0)
    else:
        V, head = c.not_('vals', 'LIST', 'NIL'), None
    evaluating(c, p=(pe.p, p.p), q=(ce.p, q.p))
    for n in ('apply_procedure', 'eval_with_func', 'apply_procedure_with_values'):
        answers(c, n, V.p)
    a = c.ast('call', c.any('call-with-values'), pe, ce)
    c.envp = c.env()
    c.args = [c.envp, a.cells[0]]
    c.modifies('any')
    c.pe, c.p, c.ce, c.q, c.V, c.head = pe, p, ce, q, V, head


def cwv(pt, ct, how):
    def f(c):
        setup(c, pt, ct, how)

        def post(r):
            evs = list(r.ev)
            names = [getattr(e, 'name', '') for e in evs]
            ok = len(evs) == 4 and sorted(names[:3]) == ['eval_with_env', 'eval_with_env', 'producer']
            yield 'producer and consumer are evaluated once, the producer is called once, and then the consumer', BoolVal(ok), {}
            if not ok:
                return
            es = [e for e in evs[:3] if e.name == 'eval_with_env']
            pr = [e for e in evs[:3] if e.name == 'producer'][0]
            fin = evs[3]
            yield 'the producer expression, then the consumer expression', And(es[0].args[0] == c.envp, es[0].args[1] == c.pe.p, es[1].args[0] == c.envp, es[1].args[1] == c.ce.p), {}
            yield 'the producer expression is evaluated before the call', BoolVal(names[0] == 'eval_with_env'), {}
            if pr.extra['node'] is None:
                yield 'the producer is called without arguments', And(pr.args[1] == c.p.v, pr.args[2] == 0), {}
            else:
                yield 'the producer is called without arguments', And(pr.args[0] == c.p.v, pr.extra['node'][0] == c.p.p, pr.extra['node'][1] == 0), {}
            yield 'the right kind of call', BoolVal((pr.extra['node'] is not None) == (pt == 'FUNC') and fin.name == ('eval_with_func' if ct == 'FUNC' else 'apply_procedure_with_values')), {}
            if fin.extra.get('node') is not None:
                yield 'the consumer is called', And(fin.args[0] == c.q.v, fin.extra['node'][0] == c.q.p), {}
                h = fin.extra['node'][1]
            else:
                yield 'the consumer is called', fin.args[1] == c.q.v, {}
                h = fin.args[2]
            if c.head is not None:
                yield 'with exactly the values produced', h == c.head, {}
            else:
                yield 'with exactly the value produced', And(h != 0, r.get('SCM_List.data', h) == c.V.p, r.get('SCM_List.next', h) == 0), {}
            yield 'its value is returned', r.v == fin.res, {}
        c.post(post)
    return f


for _p, _pn in (('PROC', 'closure'), ('FUNC', 'builtin')):
    for _c, _cn in (('PROC', 'closure'), ('FUNC', 'builtin')):
        for _h, _hn in (('list', 'several values'), ('nil', 'no values'), ('one', 'a single value')):
            S_.add(CW, '%s producer, %s consumer, %s: the consumer gets exactly the values of one call of the producer' % (_pn, _cn, _hn), cwv(_p, _c, _h))

NOTPROC = ('NUM', 'FLOAT', 'CHAR', 'STR', 'BOOL', 'SYM', 'LIST', 'NIL', 'VECTOR', 'HASH_TABLE', 'PROMISE', 'RATIO')


@S_(CW, 'a producer that is not a procedure is an error')
def _(c):
    setup(c, NOTPROC, ('PROC', 'FUNC'), 'nil')
    c.err()


@S_(CW, 'a consumer that is not a procedure is an error')
def _(c):
    setup(c, ('PROC', 'FUNC'), NOTPROC, 'nil')
    c.err()


@S_(CW, 'a missing operand is an error')
def _(c):
    c.nodebug()
    c.opaque(eval_with_env=1, apply_procedure=1, eval_with_func=1, apply_procedure_with_values=1)
    a = c.ast('call', c.any('call-with-values'), c.any('producerexpr'))
    c.args = [c.env(), a.cells[0]]
    c.err()


def conform(G):
    from conform import OBJS
    r = G.rng
    G.pre("(define tr '())\n(define (N k v) (set! tr (cons k tr)) v)\n(define (run th) (set! tr '()) (let ((v (th))) (list v (reverse tr))))")
    for n in list(G.lens(G.n(12, 40))) + [0, 1, 2, 3]:
        vs = [r.choice(['1', "'a", '"s"', '#f', "'()", "'(1 2)", "'(quote x)", "'(1 . 2)", '(vector 1)', '2.5']) for _ in range(n)]
        l = '(list %s)' % ' '.join(vs)
        V = '(values %s)' % ' '.join(vs)
        ps = ' '.join('p%d' % i for i in range(n))
        G.case('(equal? %s (call-with-values (lambda () %s) list))' % (l, V), '#t')
        G.case('(equal? %s (call-with-values (lambda () %s) (lambda x x)))' % (l, V), '#t')
        G.case('(equal? %s (call-with-values (lambda () %s) (lambda (%s) (list %s))))' % (l, V, ps, ps), '#t')
        G.case('(run (lambda () (equal? %s (call-with-values (N 1 (lambda () (N 2 0) %s)) (N 3 (lambda x (N 4 x)))))))' % (l, V), '(#t (1 2 3 4))')
        G.case('(let ((f (lambda () %s))) (equal? %s (call-with-values f (lambda x x))))' % (V, l), '#t')
        G.err('(call-with-values (lambda () %s) (lambda (%s) 1))' % (V, ' '.join('p%d' % i for i in range(n + 1))))
        if n:
            G.err('(call-with-values (lambda () %s) (lambda (%s) 1))' % (V, ' '.join('p%d' % i for i in range(n - 1))))
        if n > 1:
            G.case('(equal? %s (call-with-values (lambda () %s) (lambda (a . b) (cons a b))))' % (l, V), '#t')
            G.case('(let ((a (call-with-values (lambda () %s) (lambda x x))) (b (call-with-values (lambda () %s) (lambda x x)))) (set-car! a 0) (equal? b %s))' % (V, V, l), '#t')
    for x, _ in OBJS:
        G.case('(let ((x %s)) (call-with-values (lambda () (values x 1)) (lambda (a b) (eq? a x))))' % x, '#t')
        G.case('(let ((x %s)) (call-with-values (lambda () (values 0 x x)) (lambda (a b c) (and (eq? b x) (eq? c x)))))' % x, '#t')
        G.case('(let ((x %s)) (call-with-values (lambda () (values x)) (lambda (a) (eq? a x))))' % x, '#t')
        G.case('(let ((x %s)) (or (null? x) (pair? x) (call-with-values (lambda () x) (lambda a (and (= (length a) 1) (eq? (car a) x))))))' % x, '#t')
    G.case('(call-with-values (lambda () 5) (lambda (x) (list x)))', '(5)')
    G.case('(call-with-values * -)', '-1')
    G.case('(call-with-values values list)', '()')
    for e in ('(call-with-values 5 list)', '(call-with-values (lambda () 5) 5)', '(call-with-values (lambda () 5))', '(call-with-values)', '(call-with-values (lambda (x) 5) list)', "(call-with-values 'values list)"):
        G.err(e)
