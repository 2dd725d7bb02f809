from dsl import *
from evalmodel import Rep, Event, opaque as oq
S_ = Specs()
EV = 'C:eval_with_env/2'
jj = z3.Int('jk')


def seq(evs):
    """flatten a trace into (position, length, function index -> list of events)"""
    pos = IntVal(0)
    out = []
    for e in evs:
        if isinstance(e, Rep):
            out.append((pos, e.n, e.at, len(e.tmpl)))
            pos = simp(pos + e.n)
        else:
            out.append((pos, IntVal(1), (lambda j, e=e: [e]), 1))
            pos = simp(pos + 1)
    return out, pos


def steps(evs, check, name):
    """every step j of the trace (one event each) satisfies check(event, j)"""
    parts, total = seq(evs)
    for pos, n, at, k in parts:
        if k != 1:
            yield 'one event per step: ' + name, BoolVal(False)
            return
        one = z3.is_int_value(n) and n.as_long() == 1
        j = IntVal(0) if one else jj
        e = at(j)[0]
        for nm, g in check(e, simp(pos + j)):
            yield nm, (g if one else Implies(And(jj >= 0, jj < n), g)), dict(idx=[j, simp(pos + j)])


def res_at(evs):
    """the result of step j as a function of j (an if-chain over the parts)"""
    parts, total = seq(evs)

    def f(j):
        v = None
        for pos, n, at, k in reversed(parts):
            r = at(simp(j - pos))[0].res
            v = r if v is None else If(j < pos + n, r, v)
        return v if v is not None else IntVal(0)
    return f, total


# ---------------------------------------------------------------- operands and bodies
@S_('C:eval_list_with_env/2', 'operands: each evaluated once, left to right, in the calling scope; the values form a fresh list in the same order')
def _(c):
    c.opaque(eval_with_env=1)
    L = c.list_cells('exprs')
    c.envp = c.env()
    c.args = [c.envp, L.W(IntVal(0))]
    c.modifies('any')

    def post(r):
        yield from steps(r.ev, lambda e, j: [('operands are evaluated left to right', And(BoolVal(e.name == 'eval_with_env'), e.args[0] == c.envp, e.args[1] == L.D(j)))], 'operands')
        f, total = res_at(r.ev)
        yield 'every operand is evaluated', total == L.n
        yield from r.cells_are(r.st, r.v, L.n, f, fresh=True, name='values')
    c.post(post)


@S_('C:eval_list_with_env/2', 'no operands: no values')
def _(c):
    c.opaque(eval_with_env=1)
    c.args = [c.env(), IntVal(0)]
    c.modifies(lambda R: [])
    c.post(lambda r: [('nothing evaluated', BoolVal(len(r.ev) == 0)), ('empty', r.v == 0)])


@S_('C:eval_with_list/2', 'a body: every expression once, in order; the value of the last')
def _(c):
    c.opaque(eval_with_env=1)
    L = c.list_cells('body')
    c.envp = c.env()
    c.args = [c.envp, L.W(IntVal(0))]
    c.modifies('any')

    def post(r):
        yield from steps(r.ev, lambda e, j: [('expressions are evaluated in order', And(BoolVal(e.name == 'eval_with_env'), e.args[0] == c.envp, e.args[1] == L.D(j)))], 'body')
        f, total = res_at(r.ev)
        yield 'every expression is evaluated', total == L.n
        yield 'value of the last', r.v == f(simp(L.n - 1)), dict(idx=[simp(L.n - 1)])
    c.post(post)


@S_('C:eval_with_list/2', 'an empty body is an error')
def _(c):
    c.opaque(eval_with_env=1)
    c.args = [c.env(), IntVal(0)]
    c.err()


# ---------------------------------------------------------------- builtin procedures
NFUN = 'SCM_Function.n_args'


def func(c, n, lst):
    """a builtin registered with n arguments, called with the argument cells lst"""
    f = c.ptr('func')
    c.assume(c.get(NFUN, f) == n, c.get('SCM_Function.name', f) > 0)
    c.ex.builtins['<indirect>'] = oq('call')
    call = c.ptr('callnode')
    c.ex.alias[simp(c.get('SCM_List.next', call)).get_id()] = (simp(c.get('SCM_List.next', call)), lst)
    c.assume(c.get('SCM_List.next', call) == lst)
    fp = c.get('SCM_Function.func_ptr', f)
    c.args = [f, call]
    c.modifies('any')
    return f, fp


def fixed(n):
    def f(c):
        L = c.list_cells('args', n=IntVal(n)) if n else None
        fn, fp = func(c, n, L.W(IntVal(0)) if n else IntVal(0))

        def post(r):
            yield 'called exactly once', BoolVal(len(r.ev) == 1 and not isinstance(r.ev[0], Rep))
            if len(r.ev) != 1:
                return
            e = r.ev[0]
            yield 'the procedure itself is called, with its arguments in order', And(BoolVal(len(e.args) == n + 1), e.args[0] == fp, *[a == L.D(i) for i, a in enumerate(e.args[1:])])
            yield 'its result is returned', r.v == e.res
        c.post(post)
    return f


def wrongcount(n):
    def f(c):
        m = z3.Int('given')
        c.assume(m >= 0, m != n)
        L = c.list_cells('args', n=m, minlen=0)
        func(c, n, L.W(IntVal(0)))
        c.err()
        c.ex.builtins['throw_wrong_number_of_args'] = bi_err
    return f


for _n in range(4):
    S_.add('C:eval_with_func/2', 'a builtin of %d arguments gets them in order' % _n, fixed(_n))
    S_.add('C:eval_with_func/2', 'a builtin of %d arguments called with any other number of them is an error' % _n, wrongcount(_n))


@S_('C:eval_with_func/2', 'a builtin of any number of arguments gets the argument list')
def _(c):
    h = c.ptr('arghead', nullable=True)
    fn, fp = func(c, -2, h)

    def post(r):
        yield 'called exactly once', BoolVal(len(r.ev) == 1)
        if len(r.ev) == 1:
            e = r.ev[0]
            yield 'with the argument list', And(BoolVal(len(e.args) == 2), e.args[0] == fp, e.args[1] == h)
            yield 'its result is returned', r.v == e.res
    c.post(post)


@S_('C:eval_with_func/2', 'a folding builtin combines the arguments left to right starting from its unit')
def _(c):
    L = c.list_cells('args')
    fn, fp = func(c, -1, L.W(IntVal(0)))
    unit = c.get('SCM_Function.generic', fn)
    c.assume(unit > 0)

    def post(r):
        f, total = res_at(r.ev)
        acc = lambda j: If(j <= 0, unit, f(simp(j - 1)))
        yield from steps(r.ev, lambda e, j: [('combines the accumulated value with the next argument', And(BoolVal(len(e.args) == 3), e.args[0] == fp, e.args[1] == acc(j), e.args[2] == L.D(j)))], 'fold')
        yield 'every argument is used', total == L.n
        yield 'the last result is returned', r.v == f(simp(L.n - 1)), dict(idx=[simp(L.n - 1)])
    c.post(post)


@S_('C:eval_with_func/2', 'a folding builtin without arguments gives its unit')
def _(c):
    fn, fp = func(c, -1, IntVal(0))
    unit = c.get('SCM_Function.generic', fn)
    c.assume(unit > 0)
    c.post(lambda r: [('unit', r.v == unit), ('nothing called', BoolVal(len(r.ev) == 0))])


# ---------------------------------------------------------------- procedures (closures)
# kind 0: (x1 .. xn), kind 1: (x1 .. xn . rest) with n >= 1, kind 2: rest alone, kind 3: ()
AP, AV = 'C:apply_procedure/3', 'C:apply_procedure_with_values/3'


def closure(c, fn, kind, given=None):
    """a procedure with parameters of the given kind, applied to `given` values V(0..)
    (apply_procedure: the values its operands evaluate to)"""
    proc = c.ptr('proc')
    P_ = None
    if kind == 1:
        c.nodebug()
    if kind != 3:
        P_ = c.list_cells('params', dotted=True if kind else None, minlen=2 if kind == 1 else 1, n=IntVal(1) if kind == 2 else None)
        c.st.fact(AppFact(P_.D, lambda t: Implies(And(t >= 0, t < P_.n), And(c.type0(P_.D(t), 'SYM'), c.value0(P_.D(t)) > 0)), 'paramtypes'))
    c.np = IntVal(0) if kind in (2, 3) else (P_.n if kind == 0 else simp(P_.n - 1))
    c.P = P_
    a = c.get('SCM_Procedure.args', proc)
    h = P_.W(IntVal(0)) if P_ else IntVal(0)
    c.assume(a == h)
    c.ex.alias[simp(a).get_id()] = (simp(a), h)
    V = c.list_cells('values', n=given, minlen=0) if given is None or not z3.is_int_value(given) else None
    vh = V.W(IntVal(0)) if V else IntVal(0)
    if V is not None:
        c.ex.alias[V.W(IntVal(0)).get_id()] = (V.W(IntVal(0)), V.W(IntVal(0)))
    c.V = V
    c.nv = V.n if V else IntVal(0)
    env = c.env()
    opers = c.ptr('operands', nullable=True)
    c.proc, c.envp, c.opers = proc, env, opers
    ins = oq('insert', hv=False, result='void')
    c.ex.builtins['scm_env_insert'] = ins
    c.ex.builtins['eval_with_list'] = oq('body')
    if fn == AP:
        from evalmodel import havoc

        def ops(ex, st, args, i, f):
            args = tuple(simp(ex.ptrval(q)) for q in args)
            havoc(ex, st)
            st.ghost['ev'] = st.ghost.get('ev', ()) + (Event('operands', args, vh, IntVal(0), IntVal(0)),)
            return [('ret', st, vh, '')]
        c.ex.builtins['eval_list_with_env'] = ops
        c.note = 'operand evaluation by its contract'
    c.args = [env, proc, opers if fn == AP else vh]
    c.modifies('any')


def shape(c, r, fn, ninsert):
    """the trace: operands first, then the bindings, then the body; checks the fixed parts"""
    evs = list(r.ev)
    c.binds = None
    if fn == AP:
        yield 'the operands are evaluated first, in the calling scope', BoolVal(bool(evs) and not isinstance(evs[0], Rep) and evs[0].name == 'operands')
        if not evs or isinstance(evs[0], Rep) or evs[0].name != 'operands':
            return
        yield 'the operands are evaluated once, in the calling scope', And(evs[0].args[0] == c.envp, evs[0].args[1] == c.opers)
        evs = evs[1:]
    ok = bool(evs) and not isinstance(evs[-1], Rep) and evs[-1].name == 'body'
    yield 'the body is evaluated last', BoolVal(ok)
    if not ok:
        return
    b = evs[-1]
    scope = b.args[0]
    c.scope = scope
    yield 'the body of the procedure is evaluated', b.args[1] == c.get('SCM_Procedure.body', c.proc)
    yield 'its value is the value of the call', r.v == b.res
    yield 'in a new scope', scope >= c.A0
    yield 'inside the scope where the procedure was created', r.get('SCM_Environment.parent', scope) == c.get('SCM_Procedure.env', c.proc)
    evs = evs[:-1]
    parts, total = seq(evs)
    yield 'every parameter is bound exactly once', total == ninsert
    c.binds = evs


def bound(c, e, j):
    return [('parameters are bound, in the new scope, to the values in order', And(BoolVal(e.name == 'insert'), e.args[0] == c.scope, e.args[1] == c.value0(c.P.D(j)), e.args[2] == c.V.D(j), Not(e.args[3])))]


def exact(fn):
    def f(c):
        closure(c, fn, 0)
        c.assume(c.nv == c.np)
        c.st.addidx(c.nv)

        def post(r):
            yield from shape(c, r, fn, c.np)
            if c.binds is None:
                return
            yield from steps(c.binds, lambda e, j: bound(c, e, j), 'bindings')
        c.post(post)
    return f


def none(fn):
    def f(c):
        closure(c, fn, 3, IntVal(0))
        c.post(lambda r: shape(c, r, fn, IntVal(0)))
    return f


def rest(fn, kind):
    def f(c):
        closure(c, fn, kind)
        c.assume(c.nv >= c.np)
        c.st.addidx(c.nv)
        c.st.addidx(c.np)

        def post(r):
            yield from shape(c, r, fn, simp(c.np + 1))
            if c.binds is None:
                return
            e = c.binds[-1] if c.binds else None
            ok = e is not None and not isinstance(e, Rep) and e.name == 'insert'
            yield 'the rest parameter is bound last', BoolVal(ok)
            if not ok:
                return
            yield from steps(c.binds[:-1], lambda e, j: bound(c, e, j), 'bindings')
            yield 'the rest parameter, in the new scope', And(e.args[0] == c.scope, e.args[1] == c.value0(c.P.D(simp(c.P.n - 1))), Not(e.args[3]))
            yield from r.ex_list(r.st, e.args[2], simp(c.nv - c.np), lambda i: c.V.D(simp(c.np + i)), True, 'rest list', None, None)
        c.post(post)
    return f


def arity(fn, kind):
    def f(c):
        closure(c, fn, kind)
        c.st.addidx(c.nv)
        c.st.addidx(c.np)
        if kind == 0:
            c.assume(c.nv != c.np)
        elif kind == 1:
            c.assume(c.nv < c.np)
        else:
            c.assume(c.nv >= 1)
        c.err()
        c.ex.builtins['report_arg_mismatch'] = bi_err
    return f


for _f in (AP, AV):
    S_.add(_f, 'as many values as parameters: a new scope inside the defining one, parameters bound to the values in order, then the body', exact(_f))
    S_.add(_f, 'no parameters, no values', none(_f))
    S_.add(_f, 'a rest parameter after others gets a fresh list of the remaining values', rest(_f, 1))
    S_.add(_f, 'a rest parameter alone gets a fresh list of all values', rest(_f, 2))
    S_.add(_f, 'any other number of values is an error', arity(_f, 0))
    S_.add(_f, 'fewer values than parameters before the rest parameter is an error', arity(_f, 1))
    S_.add(_f, 'values for a procedure without parameters are an error', arity(_f, 3))


# ---------------------------------------------------------------- calls: what the evaluator does with (operator operand ...)
def noctx(c):
    c.tailcalls('eval_with_env')
    c.modifies('any')


def callform(c, head, opaque, **kw):
    """the expression (head operand ...)"""
    c.opaque(**opaque)
    c.tailcalls('eval_with_env')
    a = c.ast('call', head, tail='any')
    c.ops = simp(c.get('SCM_List.next', z3.Int('call_cell0')))
    c.envp = c.env()
    c.args = [c.envp, a.p]
    c.modifies('any')
    return a


FINDV = z3.Function('lookup', I, I, I)
EXIST = z3.Function('innermost', I, I, I)
BOUND = z3.Function('binding', I, I, B, I)


def symhead(c):
    """(name operand ...), name a variable (not a special form, not bound to a macro), in the root module"""
    s = c.sym('s')
    callform(c, s, dict(eval_with_env=1))
    e, n = c.envp, s.v

    def pure(F, k):
        def h(ex, st, args, ins, f):
            return ret(st, F(*[simp(ex.ptrval(x)) for x in args[:k]]))
        return h
    c.ex.builtins['scm_env_search'] = pure(FINDV, 2)

    def exist(ex, st, args, ins, f):
        a, k = [simp(ex.ptrval(x)) for x in args[:2]]
        r = EXIST(a, k)
        # (the global scope encloses every other)
        st.assume(And(r >= 0, r < c.A0, Implies(r != 0, BOUND(e, n, BoolVal(True)) != 0), Implies(And(a == e, r != 0), r == FINDV(e, n))))
        return ret(st, r)
    c.ex.builtins['scm_env_exist'] = exist
    c.ex.note_assume('scm_env_search, scm_env_exist and scm_env_search_entry are used through their contracts (verified under C12)')
    c.ex.note_assume('calls made while the current module is the root module (calls inside other modules: differential runs)')
    c.ex.builtins['scm_current_module'] = lambda ex, st, args, ins, f: ret(st, IntVal(0))

    def entry(ex, st, args, ins, f):
        k = args[2] if z3.is_bool(args[2]) else args[2] != 0
        r = BOUND(simp(ex.ptrval(args[0])), simp(ex.ptrval(args[1])), k)
        st.assume(And(r >= 0, r < c.A0))
        return ret(st, r)
    c.ex.builtins['scm_env_search_entry'] = entry
    v, b = FINDV(e, n), BOUND(e, n, BoolVal(True))
    c.assume(v >= 0, v < c.A0, b >= 0, b < c.A0)
    c.assume(Implies(b != 0, And(c.get('SCM_Environment::Entry.value', b) == v, v > 0)))
    c.assume(Implies(v != 0, Not(c.type0(v, 'MACRO'))))
    c.ex.builtins['is_sym_val'] = lambda ex, st, args, ins, f: ret(st, BoolVal(False))
    c.ex.builtins['is_procedure_form'] = lambda ex, st, args, ins, f: ret(st, BoolVal(False))
    c.ex.note_assume('the operator is not the name of a special form')
    return s


def goes_on_with(c, r, val):
    """the evaluation continues with (val . operands), val in place of the operator expression"""
    t = r.jump()
    yield 'the call goes on with the value of the operator', BoolVal(t is not None)
    if t is None:
        return
    x = t[0]
    cell = r.get('SCM.value', x)
    yield 'a call', r.is_('LIST', x)
    yield 'of the value the operator expression has', r.get('SCM_List.data', cell) == val
    yield 'with the same operands', r.get('SCM_List.next', cell) == c.ops


@S_(EV, 'calling a closure: it is applied once, to the operands of the call, and its value is the value of the call')
def _(c):
    p = c.typed('operator', 'PROC')
    callform(c, p, dict(apply_procedure=1))

    def post(r):
        yield 'applied exactly once, nothing else evaluated', BoolVal([e.name for e in r.ev] == ['apply_procedure'])
        if len(r.ev) == 1:
            e = r.ev[0]
            yield 'the procedure, in the calling scope, with the operands', And(e.args[0] == c.envp, e.args[1] == p.v, e.args[2] == c.ops)
            yield 'its value is the value of the call', r.v == e.res
    c.post(post)


SPECIAL = ('apply', 'map', 'map-in-order')


@S_(EV, 'calling a builtin: the operands are evaluated once, then the builtin is called with their values')
def _(c):
    c.nodebug()
    p = c.typed('operator', 'FUNC')
    callform(c, p, dict(eval_list_with_env=1, eval_with_func=1, eval_apply=1, eval_map=1))
    plainname(c, p)
    from evalmodel import havoc, opaque as oq_
    base = oq_('eval_with_func')

    def ewf(ex, st, args, ins, f):
        node = simp(ex.ptrval(args[1]))
        st.ghost['seen'] = (ex.read(st, 'SCM_List.data', node), ex.read(st, 'SCM_List.next', node))
        return base(ex, st, args, ins, f)
    c.ex.builtins['eval_with_func'] = ewf

    def post(r):
        yield 'operands once, then the builtin once', BoolVal([e.name for e in r.ev] == ['eval_list_with_env', 'eval_with_func']), dict(idx=[IntVal(i) for i in range(13)])
        if len(r.ev) != 2:
            return
        a, b = r.ev
        yield 'the operands of the call, in the calling scope', And(a.args[0] == c.envp, a.args[1] == c.ops)
        yield 'the builtin itself', b.args[0] == p.v
        d, n = r.st.ghost.get('seen', (IntVal(-1), IntVal(-1)))
        yield 'gets the operand values', And(d == p.p, n == a.res)
        yield 'its value is the value of the call', r.v == b.res
    c.post(post)


def named(c, p):
    """the name a builtin was registered with"""
    s = c.sym('builtinname')
    n = simp(c.get('SCM_Function.name', p.v))
    c.assume(n == s.v)
    c.ex.alias[n.get_id()] = (n, s.v)
    return s


def plainname(c, p):
    """the builtin is not one of apply, map, map-in-order"""
    s = named(c, p)
    for w in ('apply', 'map', 'map-in-order'):
        c.assume(Or(*[s.at(i) != ord(ch) for i, ch in enumerate(w + '\0')]))


APPLICABLE = ('PROC', 'FUNC', 'CONT', 'SMOB')
INAPPLICABLE = ('NUM', 'FLOAT', 'CHAR', 'STR', 'BOOL', 'SYM', 'LIST', 'NIL')


def result_is(c, types):
    """what the operator expression evaluates to"""
    base = c.ex.builtins['eval_with_env']

    def h(ex, st, args, ins, f):
        out = base(ex, st, args, ins, f)
        for o in out:
            if o[0] == 'ret':
                e = o[1].ghost['ev'][-1]
                o[1].assume(Or(*[e.ty == T[t] for t in types]))
        return out
    c.ex.builtins['eval_with_env'] = h


@S_(EV, 'an operator that is itself a call: evaluated once, then its value is called with the operands')
def _(c):
    h = c.typed('operator', 'LIST')
    callform(c, h, dict(eval_with_env=1))
    result_is(c, APPLICABLE)

    def post(r):
        yield 'the operator is evaluated exactly once', BoolVal(len(r.ev) == 1)
        if len(r.ev) == 1:
            e = r.ev[0]
            yield 'in the calling scope', And(e.args[0] == c.envp, e.args[1] == h.p)
            yield from goes_on_with(c, r, e.res)
    c.post(post)




@S_(EV, 'an operator expression whose value cannot be called is an error')
def _(c):
    h = c.typed('operator', 'LIST')
    callform(c, h, dict(eval_with_env=1))
    result_is(c, INAPPLICABLE)
    c.err()


@S_(EV, 'a variable as operator: its value, found by the lookup, is called with the operands')
def _(c):
    s = symhead(c)
    v = FINDV(c.envp, s.v)
    c.assume(v > 0, Or(*[c.type0(v, t) for t in APPLICABLE[:3]]))
    c.post(lambda r: goes_on_with(c, r, v))


@S_(EV, 'a variable as operator whose value cannot be called is an error')
def _(c):
    s = symhead(c)
    v = FINDV(c.envp, s.v)
    c.assume(v > 0, Or(*[c.type0(v, t) for t in INAPPLICABLE]))
    c.err()


@S_(EV, 'an unbound variable as operator is an error')
def _(c):
    s = symhead(c)
    c.assume(FINDV(c.envp, s.v) == 0)
    c.err()


@S_(EV, 'calling a continuation: its argument is evaluated, then control goes to the continuation with that value')
def _(c):
    k, x = c.typed('operator', 'CONT'), c.any('x')
    c.opaque(eval_with_env=1, scm_dynthrow=1)
    c.tailcalls('eval_with_env')
    a = c.ast('call', k, x)
    c.envp = c.env()
    c.args = [c.envp, a.p]
    c.modifies('any')

    def post(r):
        yield 'the argument, then the jump', BoolVal([e.name for e in r.ev] == ['eval_with_env', 'scm_dynthrow'])
        if len(r.ev) == 2:
            e, t = r.ev
            yield 'the argument is evaluated in the calling scope', And(e.args[0] == c.envp, e.args[1] == x.p)
            yield 'control goes to that continuation, with the value', And(t.args[0] == k.p, t.args[1] == e.res)
    c.post(post)


# ---------------------------------------------------------------- calls from other procedures (values already computed)
def via(fn, ty, nargs):
    def f(c):
        p = c.typed('proc', ty)
        xs = [c.any('x%d' % i) for i in range(nargs)]
        from evalmodel import opaque as oq_
        c.opaque(apply_procedure_with_values=1, eval_with_env=1)
        base = oq_('eval_with_func')

        def ewf(ex, st, args, ins, f):
            node = simp(ex.ptrval(args[1]))
            st.ghost['seen'] = (ex.read(st, 'SCM_List.data', node), ex.read(st, 'SCM_List.next', node))
            return base(ex, st, args, ins, f)
        c.ex.builtins['eval_with_func'] = ewf
        if fn == 'C:scm_apply_0/2':
            lst = c.typed('list', 'LIST', 'NIL')
            c.args = [p.p, lst.p]
        else:
            c.args = [p.p] + [x.p for x in xs]
        c.modifies('any')

        def post(r):
            want = 'apply_procedure_with_values' if ty == 'PROC' else 'eval_with_func'
            yield 'called once, nothing evaluated', BoolVal([e.name for e in r.ev] == [want])
            if len(r.ev) != 1:
                return
            e = r.ev[0]
            if ty == 'PROC':
                yield 'that procedure', e.args[1] == p.v
                h = e.args[2]
            else:
                yield 'that procedure', And(e.args[0] == p.v, r.st.ghost['seen'][0] == p.p)
                h = r.st.ghost['seen'][1]
            yield 'its value is returned', r.v == e.res
            if fn == 'C:scm_apply_0/2':
                yield 'with the elements of the list', h == If(c.is_(lst.p, 'NIL'), IntVal(0), lst.v)
            elif nargs:
                yield from r.cells_are(r.st, h, IntVal(nargs), lambda i: xs[simp(i).as_long()].p if z3.is_int_value(simp(i)) else If(i == 0, xs[0].p, If(i == 1, xs[min(1, nargs - 1)].p, xs[-1].p)), fresh=True, name='arguments')
            else:
                yield 'with no arguments', h == 0
        c.post(post)
    return f


def viaerr(fn, nargs):
    def f(c):
        p = c.not_('proc', 'PROC', 'FUNC')
        c.args = [p.p] + [c.any('x%d' % i).p for i in range(nargs)]
        c.err()
    return f


for _k in range(4):
    for _t, _w in (('PROC', 'a closure'), ('FUNC', 'a builtin')):
        S_.add('C:scm_call_%d/%d' % (_k, _k + 1), '%s is called with %d values, which are not evaluated again' % (_w, _k), via('', _t, _k))
    S_.add('C:scm_call_%d/%d' % (_k, _k + 1), 'anything else is an error', viaerr('', _k))
for _t, _w in (('PROC', 'a closure'), ('FUNC', 'a builtin')):
    S_.add('C:scm_apply_0/2', '%s is called with the elements of the list, which are not evaluated again' % _w, via('C:scm_apply_0/2', _t, 0))


def quoted(L):
    """the elements are (quote value)"""
    def elem(i):
        raise NotImplementedError

    def pred(ex, st, d, i):
        rd = lambda k, a: ex.read(st, k, a)
        cell = rd('SCM.value', d)
        nxt = rd('SCM_List.next', cell)
        return [rd('SCM.type', d) == T['LIST'], rd('SCM_List.data', cell) == z3.Int('OBJ_sym_quote'), nxt != 0, rd('SCM_List.data', nxt) == L.D(i), rd('SCM_List.next', nxt) == 0]
    elem.pred = pred
    return elem


@S_('C:quote_args/1', 'values as operands: each becomes (quote value), in order, in fresh cells')
def _(c):
    L = c.list_cells('args')
    c.args = [L.W(IntVal(0))]
    c.modifies(lambda R: [])
    q = quoted(L)
    c.post(lambda r: r.cells_are(r.st, r.v, L.n, q, fresh=True, name='operands'))


def conform(G):
    import refscheme
    refscheme.add(G, G.n(1800, 15000), {'call': 10, 'rest': 6, 'lam': 6, 'apply': 3, 'mapp': 2, 'err': 1, 'trace': 6}, 5)
    refscheme.add(G, G.n(500, 4000), {'call': 8, 'rest': 8, 'shadow': 4, 'err': 2}, 4, ['x', 'y'])
    E = 'ERR'
    # arity of closures: n parameters (with or without rest), m operands, reached in different ways
    for n in range(0, 5):
        ps = ' '.join('p%d' % i for i in range(n))
        for rest in (False, True):
            par = (ps + ' . r' if n else 'r') if rest else '(%s)' % ps
            par = '(%s)' % par if rest and n else par
            val = '(list %s%s)' % (ps, ' r' if rest else '')
            f = '(lambda %s %s)' % (par, val)
            for m in range(0, 7):
                a = [str(10 + i) for i in range(m)]
                if m == n and not rest:
                    want = '(%s)' % ' '.join(a)
                elif rest and m >= n:
                    want = '(%s)' % ' '.join(a[:n] + ['(%s)' % ' '.join(a[n:])])
                else:
                    want = E
                ops = ''.join(' ' + x for x in a)
                G.case('(%s%s)' % (f, ops), want)
                G.case('(let ((f %s)) (f%s))' % (f, ops), want)
                G.case('((car (list %s))%s)' % (f, ops), want)
                G.case("(apply %s '(%s))" % (f, ' '.join(a)), want)
                if m:
                    G.case("(apply %s %s '(%s))" % (f, a[0], ' '.join(a[1:])), want)
                if m >= 1:
                    w = '(%s)' % want if want != E else E
                    G.case('(map %s %s)' % (f, ' '.join("'(%s)" % x for x in a)), w)
                if n or not rest:
                    G.case('(let () (define (f%s%s) %s) (f%s))' % (' ' + ps if n else '', ' . r' if rest else '', val, ops), want)
                else:
                    G.case('(let () (define (f . r) (list r)) (f%s))' % ops, want)
    for n in G.lens(40):
        a = ' '.join(str(i) for i in range(n))
        for k in range(0, min(n, 3) + 1):
            ps = ' '.join('p%d' % i for i in range(k))
            f = '(lambda %s r)' % ('(%s . r)' % ps if k else 'r')
            want = '(%s)' % ' '.join(str(i) for i in range(k, n)) if n > k else '()'
            G.case('(%s %s)' % (f, a), want)
            G.case("(apply %s '(%s))" % (f, a), want)
        if n:
            f = '(lambda (%s) (list p0 p%d))' % (' '.join('p%d' % i for i in range(n)), n - 1)
            G.case('(%s %s)' % (f, a), '(0 %d)' % (n - 1))
            G.case('(%s %s 0)' % (f, a), E)
            G.case("(apply %s '(%s))" % (f, ' '.join(a.split()[1:])), E)
            G.case('((lambda () %s))' % a, str(n - 1))
    # a rest list is fresh: changing it does not change the caller's list
    G.case("(let ((l (list 1 2 3))) (apply (lambda r (set-car! r 9)) l) l)", '(1 2 3)')
    G.case("(let ((l (list 1 2 3))) (apply (lambda (a . r) (set-car! r 9)) l) l)", '(1 2 3)')
    G.case("(let ((f (lambda r r))) (eq? (f 1) (f 1)))", '#f')
    # arguments are evaluated once and values are not evaluated again
    for call in ("(list 'a (quote (b c)) ''d)", "(apply list '(a (b c) (quote d)))", "((lambda r r) 'a '(b c) ''d)", "(call-with-values (lambda () (values 'a '(b c) ''d)) list)"):
        G.case(call, '(a (b c) (quote d))')
    G.case("(map (lambda (x) x) '(a (car x) (quote y)))", '(a (car x) (quote y))')
    G.case("(let ((n 0)) ((lambda (a b) (list n a b)) (begin (set! n (+ n 1)) n) (begin (set! n (+ n 1)) n)))", '(2 1 2)')
    # operators: any expression; non-procedures are errors
    G.case("((if #f car cdr) '(1 2))", '(2)')
    G.case("(((lambda (x) (lambda (y) (list x y))) 1) 2)", '(1 2)')
    G.case("((call/cc (lambda (k) car)) '(7))", '7')
    for bad in ("'a", '"s"', '#t', '#\\a', "'(1 2)", '1.5', "'()"):
        G.case('(let ((f %s)) (f 1))' % bad, E)
        G.case('((car (list %s)) 1)' % bad, E)
        G.case("(apply %s '(1))" % bad, E)
    # builtins: wrong number of operands
    for name, ok in (('car', 1), ('cons', 2), ('vector-ref', 2), ('not', 1), ('set-car!', 2), ('hash-table?', 1)):
        for m in range(0, 5):
            if m != ok:
                G.case('(%s%s)' % (name, " '(1)" * m), E) if name not in ('hash-table?',) else None
                G.case("(apply %s (list%s))" % (name, " '(1)" * m), E) if name not in ('hash-table?',) else None
    # inside modules: calls of local procedures
    G.program('module-local', "(define-module (foo))\n(define (f) 'module)\n(define g (lambda (x) x))\n(display (list (let ((f (lambda () 'lex))) (let ((z 1)) (f))) (let ((g (lambda (x) 'lex))) ((lambda (y) (g y)) 5)) (f) (g 3)))\n(newline)\n",
              lambda got: got.strip().split('\n')[-1] == '(lex lex module 3)')


BUDGET = 300
