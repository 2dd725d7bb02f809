from dsl import *
from evalmodel import Rep, Event, havoc, opaque as oq
from C27 import steps, seq, res_at, jj
S_ = Specs()
LET, LST, LREC = 'C:expand_let/1', 'C:expand_letstar/1', 'C:expand_letrec/1'
sym = lambda n: z3.Int('OBJ_sym_' + n)


class Bindings:
    """a list of n bindings (variable expression ...)"""

    def __init__(self, c, name='bindings', minlen=1, rest=False, n=None):
        L = c.list_cells(name, minlen=minlen, n=n)
        self.L, self.n = L, L.n
        B0, B1, V, X = [z3.Function('%s_%s' % (name, k), I, I) for k in ('cell0', 'cell1', 'var', 'expr')]
        IDXDECLS.update([f.get_id() for f in (B0, B1, V, X)])
        self.V, self.X, self.B0, self.B1 = V, X, B0, B1
        dt, nx, do = [Select] * 3
        ini = lambda k, a: Select(z3.Const(k + '@0', ARR), a)
        rest_ = BoolVal(True)
        c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n), And(
            c.type0(L.D(t), 'LIST'), c.value0(L.D(t)) == B0(t), B0(t) > 0, B0(t) < c.A0,
            ini('SCM_List.data', B0(t)) == V(t), ini('SCM_List.next', B0(t)) == B1(t), B1(t) > 0, B1(t) < c.A0,
            ini('SCM_List.data', B1(t)) == X(t), ini('SCM_List.is_dotted', B0(t)) == 0, ini('SCM_List.is_dotted', B1(t)) == 0,
            V(t) > 0, V(t) < c.A0, X(t) > 0, X(t) < c.A0, c.type0(V(t), 'SYM'), c.value0(V(t)) > 0, c.value0(V(t)) < c.A0)), 'bindings'))


def objlist(c, name, cells):
    """the object for a non-empty list with these cells"""
    p = c.scm(name)
    c.assume(c.is_(p, 'LIST'))
    v = c.value(p)
    h = cells.W(IntVal(0))
    c.assume(v == h)
    c.ex.alias[simp(v).get_id()] = (simp(v), h)
    return p


class Shape:
    """walks a constructed expression"""

    def __init__(self, r):
        self.r = r

    def islist(self, o):
        return And(o != 0, self.r.get('SCM.type', o) == T['LIST'], self.cell(o) != 0)

    def cell(self, o):
        return self.r.get('SCM.value', o)

    def data(self, cell):
        return self.r.get('SCM_List.data', cell)

    def next(self, cell):
        return self.r.get('SCM_List.next', cell)


def letform(c, kw, *more, body='body'):
    c.nodebug()
    B = c.list_cells(body)
    a = c.ast('form', c.any(kw), *more, tail=B)
    c.args = [a.p]
    c.B = B
    return a


def same_tail(r, cell, B):
    return ('the body is the given one', cell == B.W(IntVal(0)))


def lambda_call(r, o, params, n, args, B, noparams=False):
    """o is ((lambda (params) . body) . args)"""
    s = Shape(r)
    yield 'a call', s.islist(o)
    h = s.cell(o)
    f = s.data(h)
    yield 'of a lambda expression', And(s.islist(f), s.data(s.cell(f)) == sym('lambda'))
    pc = s.next(s.cell(f))
    yield 'with parameters and body', And(pc != 0, s.next(pc) == B.W(IntVal(0)))
    if noparams:
        yield 'no parameters', And(s.data(pc) != 0, r.get('SCM.type', s.data(pc)) == T['NIL'])
        yield 'no operands', s.next(h) == 0
        return
    yield 'a parameter list', s.islist(s.data(pc))
    yield from r.cells_are(r.st, s.cell(s.data(pc)), n, params, name='the parameters are the variables in order')
    yield from r.cells_are(r.st, s.next(h), n, args, name='the operands are the expressions in order')


@S_(LET, 'let: the call of a lambda whose parameters are the variables, on the expressions, with the same body')
def _(c):
    Bs = Bindings(c)
    letform(c, 'let', objlist(c, 'bindlist', Bs.L))

    def post(r):
        yield from lambda_call(r, r.v, Bs.V, Bs.n, Bs.X, c.B)
    c.post(post)


for _k, _n in ((LET, 'let'), (LST, 'let*'), (LREC, 'letrec')):
    def _f(c, n=_n):
        letform(c, n, c.typed('nobindings', 'NIL'))
        c.post(lambda r: lambda_call(r, r.v, None, None, None, c.B, noparams=True))
    S_.add(_k, '%s without bindings: the body in a scope of its own' % _n, _f)

    def _f(c, n=_n):
        c.nodebug()
        a = c.ast('form', c.any(n))
        c.args = [a.p]
        c.err()
    S_.add(_k, '%s alone is an error' % _n, _f)

    def _f(c, n=_n):
        c.nodebug()
        a = c.ast('form', c.any(n), c.any('bindlist'))
        c.args = [a.p]
        c.err()
    S_.add(_k, '%s without a body is an error' % _n, _f)

    def _f(c, n=_n):
        letform(c, n, c.not_('bindlist', 'LIST', 'NIL', *(['SYM'] if n == 'let' else [])))
        c.err()
    S_.add(_k, '%s with something else than a list of bindings is an error' % _n, _f)


@S_(LST, 'let*: with one binding, let')
def _(c):
    Bs = Bindings(c, n=IntVal(1))
    p = objlist(c, 'bindlist', Bs.L)
    letform(c, 'let*', p)

    def post(r):
        s = Shape(r)
        yield 'a let form', And(s.islist(r.v), s.data(s.cell(r.v)) == sym('let'))
        n1 = s.next(s.cell(r.v))
        yield 'with the bindings', And(n1 != 0, s.data(n1) == p)
        yield same_tail(r, s.next(n1), c.B)
    c.post(post)


@S_(LST, 'let*: let of the first binding around let* of the others with the same body')
def _(c):
    Bs = Bindings(c, minlen=2)
    p = objlist(c, 'bindlist', Bs.L)
    a = letform(c, 'let*', p)

    def post(r):
        s = Shape(r)
        yield 'a let form', And(s.islist(r.v), s.data(s.cell(r.v)) == sym('let'))
        n1 = s.next(s.cell(r.v))
        yield 'with bindings', And(n1 != 0, s.islist(s.data(n1)))
        yield from r.cells_are(r.st, s.cell(s.data(n1)), IntVal(1), lambda i: Bs.L.D(i), name='the first binding')
        n2 = s.next(n1)
        yield 'around one form', And(n2 != 0, s.next(n2) == 0, s.islist(s.data(n2)))
        i0 = s.cell(s.data(n2))
        yield 'which is let* again', s.data(i0) == c.get('SCM_List.data', a.cells[0])
        i1 = s.next(i0)
        yield 'of the other bindings', And(i1 != 0, s.islist(s.data(i1)))
        yield from r.cells_are(r.st, s.cell(s.data(i1)), simp(Bs.n - 1), lambda i: Bs.L.D(simp(i + 1)), name='the other bindings in order')
        yield same_tail(r, s.next(i1), c.B)
    c.post(post)


def pair_(*fs):
    """elements that are fresh lists of the given items"""
    def elem(i):
        raise NotImplementedError

    def pred(ex, st, d, i):
        rd = lambda k, a: ex.read(st, k, a)
        out = [d != 0, rd('SCM.type', d) == T['LIST']]
        cell = rd('SCM.value', d)
        for f in fs:
            out.append(cell != 0)
            v = rd('SCM_List.data', cell)
            if isinstance(f, tuple):
                out.append(And(v != 0, rd('SCM.type', v) == T['SYM'], rd('SCM.value', v) == f[0](i)))
                cell = rd('SCM_List.next', cell)
                continue
            out.append(And(rd('SCM.type', v) == T['BOOL'], rd('SCM.value', v) == 0) if f is False else v == f(i))
            cell = rd('SCM_List.next', cell)
        return out + [cell == 0]
    elem.pred = pred
    return elem


@S_(LREC, 'letrec: let of the variables, assignment of the expressions in order, then the body')
def _(c):
    Bs = Bindings(c)
    p = objlist(c, 'bindlist', Bs.L)
    letform(c, 'letrec', p)

    def post(r):
        s = Shape(r)
        yield 'a let form', And(s.islist(r.v), s.data(s.cell(r.v)) == sym('let'))
        n1 = s.next(s.cell(r.v))
        yield 'with bindings', And(n1 != 0, s.islist(s.data(n1)))
        yield from r.cells_are(r.st, s.cell(s.data(n1)), Bs.n, pair_(Bs.V, False), name='every variable is bound, in order')
        ini, body = pair_(lambda i: sym('set'), Bs.V, Bs.X), c.B

        def elem(i):
            raise NotImplementedError

        def pred(ex, st, d, i):
            goals = ini.pred(ex, st, d, i)
            return [Implies(i < Bs.n, g) for g in goals] + [Implies(i >= Bs.n, d == body.D(simp(i - Bs.n)))]
        elem.pred = pred
        yield from r.cells_are(r.st, s.next(n1), simp(Bs.n + body.n), elem, name='the variables are assigned in order, then the body follows')
    c.post(post)


def badbinding(k, what):
    def f(c):
        L = c.list_cells('bindings')
        w = z3.Int('badpos')
        c.assume(w >= 0, w < L.n)
        c.st.addidx(w)
        d = L.D(w)
        ini = lambda q, a: Select(z3.Const(q + '@0', ARR), a)
        c.st.fact(AppFact(L.D, lambda t: Implies(And(t >= 0, t < L.n, c.type0(L.D(t), 'LIST')), And(
            c.value0(L.D(t)) > 0, c.value0(L.D(t)) < c.A0, ini('SCM_List.data', c.value0(L.D(t))) > 0, ini('SCM_List.data', c.value0(L.D(t))) < c.A0)), 'elements that are lists'))
        if what == 'nolist':
            c.assume(Not(c.type0(d, 'LIST')))
        else:
            c.assume(c.type0(d, 'LIST'), c.value0(d) > 0, c.value0(d) < c.A0)
            if what == 'novar':
                v = ini('SCM_List.data', c.value0(d))
                c.assume(v > 0, v < c.A0, Not(c.type0(v, 'SYM')))
            else:
                c.assume(ini('SCM_List.next', c.value0(d)) == 0)
        letform(c, 'let', objlist(c, 'bindlist', L))
        c.err()
    return f


for _k, _n in ((LET, 'let'), (LREC, 'letrec')):
    for _w, _t in (('nolist', 'a binding that is not a list'), ('novar', 'a binding whose first element is not a symbol'), ('noexpr', 'a binding without an expression')):
        S_.add(_k, '%s: %s is an error' % (_n, _t), badbinding(_k, _w))


# ---------------------------------------------------------------- named let
def namedlet(c, Bs):
    name = c.typed('name', 'SYM')
    c.bl = objlist(c, 'bindlist', Bs.L) if Bs else c.typed('nobindings', 'NIL')
    letform(c, 'let', name, c.bl)
    c.opaque(create_sym=dict(hv=False))
    c.name = name


def looplambda(r, s, o, name, params, n, B):
    """o is ((name (lambda (params) . body)))"""
    yield 'one binding', And(s.islist(o), s.next(s.cell(o)) == 0, s.islist(s.data(s.cell(o))))
    b0 = s.cell(s.data(s.cell(o)))
    b1 = s.next(b0)
    yield 'the name', And(s.data(b0) == name, b1 != 0, s.next(b1) == 0)
    lam = s.data(b1)
    yield 'bound to a lambda expression', And(s.islist(lam), s.data(s.cell(lam)) == sym('lambda'))
    l1 = s.next(s.cell(lam))
    yield 'with parameters', l1 != 0
    if params is None:
        yield 'no parameters', And(s.data(l1) != 0, r.get('SCM.type', s.data(l1)) == T['NIL'])
    else:
        yield 'a parameter list', s.islist(s.data(l1))
        yield from r.cells_are(r.st, s.cell(s.data(l1)), n, params, name='the parameters are the variables in order')
    yield same_tail(r, s.next(l1), B)


@S_(LET, 'named let without bindings: letrec of the name as a procedure without parameters, called')
def _(c):
    namedlet(c, None)

    def post(r):
        s = Shape(r)
        yield 'a letrec form', And(s.islist(r.v), s.data(s.cell(r.v)) == sym('letrec'))
        n1 = s.next(s.cell(r.v))
        n2 = s.next(n1)
        yield 'of two parts', And(n1 != 0, n2 != 0, s.next(n2) == 0)
        yield from looplambda(r, s, s.data(n1), c.name.p, None, None, c.B)
        call = s.data(n2)
        yield 'the body is a call of the name', And(s.islist(call), s.data(s.cell(call)) == c.name.p, s.next(s.cell(call)) == 0)
    c.post(post)


def _f(c):
    c.nodebug()
    a = c.ast('form', c.any('let'), c.typed('name', 'SYM'), c.any('bindlist'))
    c.args = [a.p]
    c.err()


S_.add(LET, 'named let without a body is an error', _f)


def _f(c):
    letform(c, 'let', c.typed('name', 'SYM'), c.not_('bindlist', 'LIST', 'NIL'))
    c.opaque(create_sym=dict(hv=False))
    c.err()


S_.add(LET, 'named let with something else than a list of bindings is an error', _f)


# ---------------------------------------------------------------- do
MDS, NDS, DO = 'C:make_do_scope/3', 'C:next_do_scope/3', 'C:eval_do/2'
ini = lambda k, a: Select(z3.Const(k + '@0', ARR), a)


class DoVars:
    """a list of n entries (variable) or (variable step); with_init: (variable init) or (variable init step)"""

    def __init__(self, c, name='vars', minlen=1, with_init=False, n=None):
        L = c.list_cells(name, minlen=minlen, n=n)
        self.L, self.n = L, L.n
        C0, C1, V, X, C2, S = self.fs = [z3.Function('%s_%s' % (name, k), I, I) for k in ('c0', 'c1', 'var', 'init', 'c2', 'step')]
        IDXDECLS.update([f.get_id() for f in self.fs])
        self.V, self.X, self.S, self.Step = V, X, S, C2
        old = lambda x: And(x > 0, x < c.A0)

        def fact(t):
            f = [c.type0(L.D(t), 'LIST'), c.value0(L.D(t)) == C0(t), old(C0(t)), ini('SCM_List.data', C0(t)) == V(t), ini('SCM_List.is_dotted', C0(t)) == 0,
                 old(V(t)), c.type0(V(t), 'SYM'), c.value0(V(t)) > 0, c.value0(V(t)) < c.A0]
            if with_init:
                f += [ini('SCM_List.next', C0(t)) == C1(t), old(C1(t)), ini('SCM_List.data', C1(t)) == X(t), old(X(t)), ini('SCM_List.is_dotted', C1(t)) == 0,
                      ini('SCM_List.next', C1(t)) == C2(t)]
            else:
                f += [ini('SCM_List.next', C0(t)) == C2(t)]
            f += [C2(t) >= 0, C2(t) < c.A0, Implies(C2(t) != 0, And(ini('SCM_List.data', C2(t)) == S(t), old(S(t))))]
            return Implies(And(t >= 0, t < L.n), And(*f))
        c.st.fact(AppFact(L.D, fact, 'loop variables'))


@S_(MDS, 'do: a new scope under the given one with every variable bound to its value, in order')
def _(c):
    c.opaque(make_env=dict(hv=False), scm_env_insert=dict(hv=False))
    Vs = DoVars(c)
    L = c.list_cells('vals', n=Vs.n)
    c.envp = c.env()
    c.args = [c.envp, Vs.L.W(IntVal(0)), L.W(IntVal(0))]

    def post(r):
        yield 'a scope is made first', BoolVal(len(r.ev) >= 1 and not isinstance(r.ev[0], Rep) and r.ev[0].name == 'make_env')
        yield 'under the given one', r.ev[0].args[0] == c.envp
        yield 'and returned', r.v == r.ev[0].res
        yield from steps(r.ev[1:], lambda e, j: [('every variable is bound in it, to its value', And(
            BoolVal(e.name == 'scm_env_insert'), e.args[0] == r.v, e.args[1] == c.value0(Vs.V(j)), e.args[2] == L.D(j), Not(e.args[3]) if z3.is_bool(e.args[3]) else e.args[3] == 0))], 'insertions')
        yield 'as many as there are variables', seq(r.ev[1:])[1] == Vs.n
    c.post(post)


@S_(MDS, 'do: no variables: an empty scope')
def _(c):
    c.opaque(make_env=dict(hv=False), scm_env_insert=dict(hv=False))
    c.envp = c.env()
    c.args = [c.envp, IntVal(0), IntVal(0)]
    c.post(lambda r: [('only a scope', BoolVal(len(r.ev) == 1 and r.ev[0].name == 'make_env')), ('under the given one', r.ev[0].args[0] == c.envp), ('returned', r.v == r.ev[0].res)])


def next_scope(kind):
    def f(c):
        c.nodebug()
        c.opaque(make_do_scope=dict(hv=False), eval_with_env=1, scm_env_exist=dict(hv=False))
        Vs = DoVars(c)
        if kind != 'mixed':
            c.st.fact(AppFact(Vs.L.D, lambda t: Implies(And(t >= 0, t < Vs.n), (Vs.Step(t) != 0) if kind == 'all' else (Vs.Step(t) == 0)), 'which have steps'))
        c.envp, c.doenv = c.env(), c.ptr('do_env')
        c.args = [c.envp, c.doenv, Vs.L.W(IntVal(0))]
        c.modifies('any')

        def scope(R, args, k):
            f, total = res_at(R.st.ghost['ev'])
            yield 'a scope under the surrounding one', args[0] == c.envp
            yield 'of the same variables', args[1] == Vs.L.W(IntVal(0))
            yield 'one value per variable', total == Vs.n
            yield from R.cells_are(R.st, args[2], Vs.n, f, name='the values in order')
        c.atcall('make_do_scope', scope)

        def post(r):
            yield 'one new scope', BoolVal(not isinstance(r.ev[-1], Rep) and r.ev[-1].name == 'make_do_scope')
            yield 'returned', r.v == r.ev[-1].res
            yield from steps(r.ev[:-1], lambda e, j: [('the step, or the current value, in the finished scope', And(
                e.args[0] == c.doenv,
                If(Vs.Step(j) != 0, And(BoolVal(e.name == 'eval_with_env'), e.args[1] == Vs.S(j)),
                   And(BoolVal(e.name == 'scm_env_exist'), e.args[1] == c.value0(Vs.V(j))))))], 'steps')
        c.post(post)
    return f


S_.add(NDS, 'do: every step is evaluated in the scope of the finished iteration; the values go into one new scope', next_scope('all'))
S_.add(NDS, 'do: variables without step keep their values in the new scope', next_scope('none'))
S_.add(NDS, 'do: variables with and without step, mixed', next_scope('mixed'), _unroll=3)


@S_(NDS, 'do: without variables an empty scope')
def _(c):
    c.nodebug()
    c.opaque(make_do_scope=dict(hv=False), eval_with_env=1, scm_env_exist=dict(hv=False))
    c.envp, c.doenv = c.env(), c.ptr('do_env')
    c.args = [c.envp, c.doenv, IntVal(0)]
    c.post(lambda r: [('only a scope', And(BoolVal(len(r.ev) == 1 and r.ev[0].name == 'make_do_scope'))), ('of nothing', And(r.ev[0].args[0] == c.envp, r.ev[0].args[1] == 0, r.ev[0].args[2] == 0)), ('returned', r.v == r.ev[0].res)])


def doform(c, Vs, binds, body=True, results=1):
    c.nodebug()
    c.opaque(make_do_scope=dict(hv=False), next_do_scope=1, eval_with_env=1, eval_list_with_env=1)
    c.envp = c.env()
    c.vars = binds
    c.T = c.any('test')
    c.RL = c.list_cells('results') if results else None
    c.test = c.ast('clause', c.T, **(dict(tail=c.RL) if results else {}))
    if body:
        c.B = c.list_cells('body')
        c.bodyp = c.B.W(IntVal(0))
        a = c.ast('form', c.any('do'), c.vars, c.test, tail=c.B)
    else:
        c.bodyp = IntVal(0)
        a = c.ast('form', c.any('do'), c.vars, c.test)
    c.args = [c.envp, a.cells[0]]
    c.modifies('any')


def running(kind, body, results):
    """kind: 'init', 'step' (all variables with step), 'none' (no variables)"""
    def f(c):
        Vs = None
        if kind == 'none':
            binds = c.typed('nobindings', 'NIL')
            c.assume(c.value(binds.p) == 0)
        else:
            Vs = DoVars(c, 'bindings', with_init=True)
            c.st.fact(AppFact(Vs.L.D, lambda t: Implies(And(t >= 0, t < Vs.n), (Vs.Step(t) != 0) if kind == 'step' else (Vs.Step(t) == 0)), 'which have steps'))
            binds = objlist(c, 'bindlist', Vs.L)
        doform(c, Vs, binds, body, results)
        if Vs:
            def scope(R, args, k):
                f, total = res_at(R.st.ghost['ev'])
                yield 'a scope under the surrounding one', args[0] == c.envp
                yield 'one initial value per variable', total == Vs.n
                yield from R.cells_are(R.st, args[2], Vs.n, f, name='the initial values in order')
                yield from R.cells_are(R.st, args[1], Vs.n, pair_((lambda i: c.value0(Vs.V(i)),), *([Vs.S] if kind == 'step' else [])), name='the variables with their steps')
            c.atcall('make_do_scope', scope)

        def post(r):
            ev = list(r.ev)
            if Vs:
                k = [i for i, e in enumerate(ev) if isinstance(e, Event) and e.name == 'make_do_scope']
                yield 'one first scope', BoolVal(len(k) == 1)
                yield from steps(ev[:k[0]], lambda e, j: [('the initial expressions are evaluated in the surrounding scope, in order', And(
                    BoolVal(e.name == 'eval_with_env'), e.args[0] == c.envp, e.args[1] == Vs.X(j)))], 'initial values')
                ev = ev[k[0]:]
            first, test, rest = ev[0], ev[1], ev[2:]
            yield 'the first scope', BoolVal(first.name == 'make_do_scope')
            yield 'then the test in it', And(BoolVal(test.name == 'eval_with_env'), test.args[0] == first.res, test.args[1] == P(c.T))
            last, truth, N = first.res, test.truthy, IntVal(0)
            per = ['eval_list_with_env'] * body + ['next_do_scope', 'eval_with_env']
            if rest and isinstance(rest[0], Rep) and rest[0].tmpl[-1].name == 'eval_with_env' and len(rest[0].tmpl) == len(per):
                rep, rest = rest[0], rest[1:]
                at = lambda j: dict(zip(per, rep.at(j)))
                yield 'an iteration: the body, the next scope, the test', BoolVal([e.name for e in rep.tmpl] == per)
                e = at(jj)
                sc = If(jj == 0, first.res, at(simp(jj - 1))['next_do_scope'].res)
                dom = And(jj >= 0, jj < rep.n)
                ix = dict(idx=[jj, simp(jj - 1)])
                if body:
                    yield 'the body in the scope of the iteration', Implies(dom, And(e['eval_list_with_env'].args[0] == sc, e['eval_list_with_env'].args[1] == c.bodyp)), ix
                nx = e['next_do_scope']
                yield 'the next scope from this one', Implies(dom, And(nx.args[0] == c.envp, nx.args[1] == sc)), ix
                yield 'with the same variables', Implies(dom, nx.args[2] == first.args[1]), ix
                yield 'the test in the next scope', Implies(dom, And(e['eval_with_env'].args[0] == nx.res, e['eval_with_env'].args[1] == P(c.T))), ix
                yield 'as long as the test is false', Implies(And(dom, jj < rep.n - 1), Not(e['eval_with_env'].truthy)), ix
                yield 'the first test was false', Implies(rep.n > 0, Not(test.truthy)), dict(idx=[IntVal(0)])
                l = simp(rep.n - 1)
                last = If(rep.n == 0, first.res, at(l)['next_do_scope'].res)
                truth = If(rep.n == 0, test.truthy, at(l)['eval_with_env'].truthy)
                yield 'until it is true', truth, dict(idx=[l])
                N = rep.n
            else:
                # no iteration, or (bounded runs) the iterations one by one
                while len(rest) >= len(per) and all(isinstance(e, Event) for e in rest[:len(per)]) and [e.name for e in rest[:len(per)]] == per:
                    e, rest = dict(zip(per, rest[:len(per)])), rest[len(per):]
                    yield 'as long as the test is false', Not(truth)
                    if body:
                        yield 'the body in the scope of the iteration', And(e['eval_list_with_env'].args[0] == last, e['eval_list_with_env'].args[1] == c.bodyp)
                    nx, te = e['next_do_scope'], e['eval_with_env']
                    yield 'the next scope from this one', And(nx.args[0] == c.envp, nx.args[1] == last)
                    yield 'with the same variables', nx.args[2] == first.args[1]
                    yield 'the test in the next scope', And(te.args[0] == nx.res, te.args[1] == P(c.T))
                    last, truth = nx.res, te.truthy
                yield 'until it is true', truth
            if not results:
                yield 'nothing else', BoolVal(len(rest) == 0)
                yield 'the value is unspecified', r.v == z3.Int('OBJ_none')
                return
            yield from steps(rest, lambda e, j: [('the result expressions in the last scope, in order', And(
                BoolVal(e.name == 'eval_with_env'), e.args[0] == last, e.args[1] == c.RL.D(j)))], 'results')
            f, total = res_at(rest)
            yield 'all of them', total == c.RL.n
            yield 'the value of the last', r.v == f(simp(c.RL.n - 1)), dict(idx=[simp(c.RL.n - 1), simp(N - 1)])
        c.post(post)
    return f


for _kind, _t in (('init', 'variables without steps'), ('step', 'variables with steps'), ('none', 'no variables')):
    for _b, _bt in ((True, 'a body'), (False, 'no body')):
        for _r, _rt in ((True, 'results'), (False, 'no results')):
            if _kind == 'none' or _b and _r:
                S_.add(DO, 'do: %s, %s, %s: initial values, first scope, then test, body and next scope until the test is true, then the results' % (_t, _bt, _rt), running(_kind, _b, _r), _cost=0 if _kind == 'none' else 400)


def conform(G):
    import refscheme
    E = 'ERR'
    r = G.rng
    refscheme.add(G, G.n(1500, 12000), {'let': 10, 'letstar': 10, 'letrec': 10, 'named': 10, 'do': 10, 'lam': 3, 'trace': 6, 'iff': 3, 'ccc': 1, 'call': 3, 'macro': 0}, 5)
    # loops against their meaning
    for _ in range(G.n(150, 1500)):
        a, st, n = r.randrange(-5, 6), r.choice([1, 1, 2, 3]), r.randrange(0, 9)
        seq_ = [a + st * i for i in range(n)]
        l = '(%s)' % ' '.join(map(str, seq_))
        lim = a + st * n
        test = r.choice(['(= i %d)' % lim, '(>= i %d)' % lim, "(memv i '(%d))" % lim, "(assv i '((%d . x)))" % lim, '(and (= i %d) i)' % lim, "(member i (list 'a %d))" % lim])
        G.case("(let ((acc '())) (do ((i %d (+ i %d))) (%s (reverse acc)) (set! acc (cons i acc))))" % (a, st, test), l)
        G.case("(do ((i %d (+ i %d)) (acc '() (cons i acc))) (%s (reverse acc)))" % (a, st, test), l)
        G.case("(let loop ((i %d) (acc '())) (if %s (reverse acc) (loop (+ i %d) (cons i acc))))" % (a, test, st), l)
        G.case("(do ((vec (make-vector %d 0)) (i 0 (+ i 1))) ((= i %d) vec) (vector-set! vec i (* i i)))" % (n, n), '#(%s)' % ' '.join(str(i * i) for i in range(n)))
        G.case("(let ((x %d)) (do ((x (+ x 1) (+ x 1)) (y x x)) ((> x %d) (list x y))))" % (a, a + n + 1), '(%d %d)' % (a + n + 2, a + n + 1))
        # every iteration has its own variables
        G.case("(map (lambda (p) (p)) (do ((i 0 (+ i 1)) (ps '() (cons (lambda () i) ps))) ((= i %d) ps)))" % n, '(%s)' % ' '.join(str(i) for i in reversed(range(n))))
        ns = r.sample(range(-9, 10), r.randrange(1, 8))
        G.case("(let loop ((ns '(%s)) (neg '()) (pos '())) (cond ((null? ns) (list neg pos)) ((< (car ns) 0) (loop (cdr ns) (cons (car ns) neg) pos)) (else (loop (cdr ns) neg (cons (car ns) pos)))))" % ' '.join(map(str, ns)),
               '((%s) (%s))' % (' '.join(str(x) for x in reversed(ns) if x < 0), ' '.join(str(x) for x in reversed(ns) if x >= 0)))
    G.case("(do ((i 0 (+ i 1))) (#t))", 'none')
    G.case("(do () (#t 1 2 3))", '3')
    G.case("(let ((x 1)) (do () ((> x 3) x) (set! x (+ x 1))))", '4')
    for x in ('1', '"s"', "'a", "'()", '(list 1)', '#\\a', '0', '(lambda () 1)', '(vector)', '1.5'):
        G.case("(do ((i 0 (+ i 1))) (%s 'stopped) (car '()))" % x, 'stopped')
    # scope
    G.case("(let ((x 1) (y 2)) (let ((x y) (y x)) (list x y)))", '(2 1)')
    G.case("(let ((x 1) (y 2)) (let* ((x y) (y x)) (list x y)))", '(2 2)')
    G.case("(let ((x 1)) (let* () (define x 2) x))", '2')
    G.case("(let ((x 1)) (let* () (define x 2) x) x)", '1')
    G.case("(let ((x 1)) (let () (define x 2) x) x)", '1')
    G.case("(let ((f (lambda () 'outer))) (let ((f (lambda () (f)))) (f)))", 'outer')
    G.case("(letrec ((f (lambda (n) (if (= n 0) 'done (f (- n 1)))))) (f 10))", 'done')
    G.case("(letrec ((a 1) (b a)) b)", '1')
    G.case("(let ((a 5)) (letrec ((a 1) (f (lambda () a)) (b a)) (list a (f) b)))", '(1 1 1)')
    G.case("(letrec ((ev? (lambda (n) (if (= n 0) #t (od? (- n 1))))) (od? (lambda (n) (if (= n 0) #f (ev? (- n 1)))))) (list (ev? 10) (od? 10)))", '(#t #f)')
    G.case("(let ((f (lambda (x) 'outer))) (let f ((x 3)) (if (= x 0) 'inner (f (- x 1)))))", 'inner')
    G.case("(let ((x 5)) (let loop ((y x) (x 1)) (list x y)))", '(1 5)')
    G.case("(let ((loop 7)) (let loop ((y loop)) (if (number? y) (loop 'sym) y)))", 'sym')
    for bad in ('(let)', '(let ())', '(let 5 1)', '(let ((5 1)) 1)', '(let ((x)) 1)', '(let (x) 1)', '(let (("s" 1)) 1)', '(let*)', '(let* ())', '(let* 5 1)', '(letrec)', '(letrec ())',
                '(letrec 5 1)', '(letrec ((x)) 1)', '(letrec ((5 1)) 1)', '(let loop)', '(let loop ())', '(let loop 5 1)', '(do)', '(do ())', '(do 5 (#t 1))', '(do (5) (#t 1))', '(do ((5 1)) (#t 1))',
                '(do ((x)) (#t 1))', '(do () 5)', '(do () ())', '(do x (#t))', '(let loop (x) 1)'):
        G.case(bad, E)


BUDGET = 430
