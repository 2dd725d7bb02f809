from dsl import *
S_ = Specs()
ENT, NX, DAT = 'SCM_Environment::List.data', 'SCM_Environment::List.next', 'SCM_Environment::List.data'
KEY, VAL = 'SCM_Environment::Entry.key', 'SCM_Environment::Entry.value'
SID = z3.Function('text', I, I)
IDXDECLS.add(SID.get_id())


def names(c):
    """strcmp by its contract: zero exactly when the two C strings have the same text"""
    def h(ex, st, args, ins, f):
        ex.note_assume('strcmp returns 0 exactly for equal C strings')
        a, b = [simp(ex.ptrval(x)) for x in args]
        r = ex.fresh(st, 'strcmp')
        st.assume(And((r == 0) == (SID(a) == SID(b)), r >= -(1 << 31), r < (1 << 31)))
        return [('ret', st, r, '')]
    c.ex.builtins['@strcmp'] = h


class Frame:
    """a scope with n bindings; the k-th (innermost/most recent first) is entry E(k) with name text K(k)"""

    def __init__(self, c, name, env=None, minlen=0):
        self.c = c
        p = z3.Int(name) if env is None else env
        if env is None:
            c.st.assume(And(p > 0, p < c.A0))
        self.p = p
        E = self.E = z3.Function('entry_' + name, I, I)
        EP = z3.Function('entrypos_' + name, I, I)
        IDXDECLS.update([E.get_id(), EP.get_id()])
        self.key = lambda k: Select(init0(KEY), E(k))
        self.val = lambda k: Select(init0(VAL), E(k))
        c.st.fact(AppFact(E, lambda t: Implies(And(t >= 0, t < self.n), And(E(t) > 0, E(t) < c.A0, EP(E(t)) == t, self.key(t) > 0, self.key(t) < c.A0)), 'entries'))
        self.n = z3.Int('len_' + name)
        self.ch = c.chain(name, NX, {DAT: E}, n=self.n, minlen=minlen, head=c.get(NX, p))
        self.W = self.ch.W
        self.parent = c.get('SCM_Environment.parent', p)
        self.module = c.get('SCM_Environment.module', p)

    def bound_at(self, s, w):
        """position w is the first binding of s"""
        st = self.c.st
        st.assume(And(w >= 0, w < self.n, SID(self.key(w)) == SID(s.d)))
        st.addidx(w)
        st.fact(AppFact(self.E, lambda t: Implies(And(t >= 0, t < w), SID(self.key(t)) != SID(s.d)), 'first'))

    def unbound(self, s):
        self.c.st.fact(AppFact(self.E, lambda t: Implies(And(t >= 0, t < self.n), SID(self.key(t)) != SID(s.d)), 'unbound'))


def symptr(c, n='sym'):
    """a raw SCM_Symbol pointer"""
    p = z3.Int(n)
    c.st.assume(And(p > 0, p < c.A0))
    d = c.get('SCM_Symbol.data', p)
    c.assume(d > 0, d < c.A0)
    return O(p, d=d, n=c.get('SCM_Symbol.len', p))


SE = 'C:scm_env_search_entry/3'


def found(c, parent=False):
    names(c)
    s = symptr(c)
    search_contract(c)
    F = Frame(c, 'scope', minlen=1)
    w = z3.Int('w')
    F.bound_at(s, w)
    c.args = [F.p, s.p, z3.Bool('search_parent')]
    c.post(lambda R: [('the first binding of that name in the scope', R.v == F.E(w), dict(idx=[w]))])
    c.modifies(lambda R: [])


@S_(SE, 'a name bound in the scope: its binding, whatever the enclosing scopes hold')
def _(c):
    found(c)


@S_(SE, 'a name not bound in the scope: nothing when enclosing scopes are not searched')
def _(c):
    names(c)
    s = symptr(c)
    F = Frame(c, 'scope')
    F.unbound(s)
    c.args = [F.p, s.p, BoolVal(False)]
    c.post(lambda R: [('not found', R.v == 0)])
    c.modifies(lambda R: [])


FINDP = z3.Function('binding', I, I, I)


def search_contract(c):
    """recursive calls by contract: the binding visible from a scope (0: none)"""
    def h(ex, st, args, ins, f):
        if 'scm_env_search_entry' not in f.name:
            return NotImplemented
        ex.note_assume('scm_env_search_entry is used through its own contract (its behaviours are verified)')
        e, s = [simp(ex.ptrval(x)) for x in args[:2]]
        p = args[2]
        r = FINDP(e, s)
        st.assume(And(r >= 0, r < st.ghost['A0']))
        return [('ret', st, r, '')]
    c.ex.builtins['scm_env_search_entry'] = h


@S_(SE, 'a name not bound in the scope: what the enclosing scope sees')
def _(c):
    names(c)
    search_contract(c)
    s = symptr(c)
    F = Frame(c, 'scope')
    F.unbound(s)
    c.assume(F.parent > 0)
    c.args = [F.p, s.p, BoolVal(True)]
    c.post(lambda R: [('the enclosing scope decides', R.v == FINDP(F.parent, s.p))])
    c.modifies(lambda R: [])


@S_(SE, 'outermost scope: an unbound name is not found')
def _(c):
    names(c)
    s = symptr(c)
    F = Frame(c, 'scope')
    F.unbound(s)
    c.assume(F.parent == 0)
    c.args = [F.p, s.p, BoolVal(True)]
    c.post(lambda R: [('not found', R.v == 0)])
    c.modifies(lambda R: [])


INS = 'C:scm_env_insert/4'


@S_(INS, 'a name bound in the scope: only that binding changes')
def _(c):
    names(c)
    s = symptr(c)
    search_contract(c)
    F = Frame(c, 'scope', minlen=1)
    w = z3.Int('w')
    F.bound_at(s, w)
    v = c.scm('value')
    c.args = [F.p, s.p, v, BoolVal(False)]
    c.post(lambda R: [('the binding holds the value', R.get(VAL, F.E(w)) == v, dict(idx=[w]))])
    c.modifies(lambda R: [(VAL, F.E(w))])


@S_(INS, 'a name not bound in the scope: a new binding in front of the others, which stay')
def _(c):
    names(c)
    s = symptr(c)
    c.assume(s.n >= 0, s.n < (1 << 31) - 1)
    F = Frame(c, 'scope')
    F.unbound(s)
    v = c.scm('value')
    c.args = [F.p, s.p, v, BoolVal(False)]
    j = z3.Int('jb')

    def post(R):
        node = R.get(NX, F.p)
        e = R.get(DAT, node)
        k = R.get(KEY, e)
        yield 'fresh binding cell', And(node >= c.A0, e >= c.A0, k >= c.A0, node != e, e != k)
        yield 'the earlier bindings follow it', R.get(NX, node) == F.W(IntVal(0))
        yield 'value', R.get(VAL, e) == v
        yield 'the name is copied', Implies(And(j >= 0, j < s.n), R.mem1(simp(k + j)) == Select(init0('mem1'), s.d + j)), dict(idx=[j])
        yield 'the name is terminated', R.mem1(simp(k + s.n)) == 0
    c.post(post)
    c.modifies(lambda R: [(NX, F.p)])


EX = 'C:scm_env_exist/2'


@S_(EX, 'a bound name: its value')
def _(c):
    names(c)
    s = symptr(c)
    search_contract(c)
    F = Frame(c, 'scope', minlen=1)
    w = z3.Int('w')
    F.bound_at(s, w)
    c.args = [F.p, s.p]
    c.post(lambda R: [('value of the first binding', R.v == F.val(w), dict(idx=[w]))])
    c.modifies(lambda R: [])


@S_(EX, 'an unbound name: nothing, whatever the enclosing scopes hold')
def _(c):
    names(c)
    s = symptr(c)
    search_contract(c)
    F = Frame(c, 'scope')
    F.unbound(s)
    c.args = [F.p, s.p]
    c.post(lambda R: [('not found', R.v == 0)])
    c.modifies(lambda R: [])

FIND = z3.Function('find', I, I, B, I)
MODV = z3.Function('module_variable', I, I, I)
CURMOD = z3.Int('current_module')


def gaddr(c, name):
    """address of a global variable"""
    for m in c.ex.prog.modules:
        if m.globals.get('@' + name) is not None:
            return IntVal(c.ex.prog.global_addr(m, '@' + name))
    raise Unsupported('no global ' + name)


def lookup_contracts(c):
    def h(ex, st, args, ins, f):
        ex.note_assume('scm_env_search_entry is used through its own contract (its behaviours are verified)')
        e, s = [simp(ex.ptrval(x)) for x in args[:2]]
        r = FIND(e, s, args[2] if z3.is_bool(args[2]) else args[2] != 0)
        st.assume(And(r >= 0, r < st.ghost['A0']))
        st.assume(Implies(FIND(e, s, BoolVal(False)) != 0, FIND(e, s, BoolVal(True)) == FIND(e, s, BoolVal(False))))
        return [('ret', st, simp(r), '')]
    c.ex.builtins['scm_env_search_entry'] = h

    def mv(ex, st, args, ins, f):
        ex.note_assume('module_search_variable returns the value bound in the module or its imports, or null (module system not under contract here)')
        r = MODV(*[simp(ex.ptrval(x)) for x in args])
        st.assume(And(r >= 0, r < st.ghost['A0']))
        return [('ret', st, r, '')]
    c.ex.builtins['module_search_variable'] = mv

    def cm(ex, st, args, ins, f):
        st.assume(And(CURMOD >= 0, CURMOD < st.ghost['A0']))
        return [('ret', st, CURMOD, '')]
    c.ex.builtins['scm_current_module'] = cm


SR = 'C:scm_env_search/2'
isbound = lambda c, e: And(e != 0, Select(init0(VAL), e) != 0)


def sr(c, minlen=1):
    lookup_contracts(c)
    s = symptr(c)
    M = z3.Function('module_of', I, I)
    IDXDECLS.add(M.get_id())
    ch = c.chain('envs', 'SCM_Environment.parent', {'SCM_Environment.module': M}, minlen=1)
    env = ch.W(IntVal(0))
    c.args = [env, s.p]
    c.modifies(lambda R: [])
    return s, ch, env, M


@S_(SR, 'a lexically bound name: the value of its innermost binding, never a module or global one')
def _(c):
    s, ch, env, M = sr(c)
    e = FIND(env, s.p, BoolVal(True))
    c.assume(isbound(c, e))
    c.assume(Implies(FIND(env, s.p, BoolVal(False)) != 0, FIND(env, s.p, BoolVal(False)) == e))
    c.post(lambda R: [('value of the lexical binding', R.v == Select(init0(VAL), e))])


def sr_outer(where):
    def f(c):
        s, ch, env, M = sr(c)
        e = FIND(env, s.p, BoolVal(True))
        c.assume(e == 0)
        c.assume(Implies(FIND(env, s.p, BoolVal(False)) != 0, FIND(env, s.p, BoolVal(False)) == e))
        w = z3.Int('w')
        c.assume(w >= 0, w <= ch.n)
        c.st.addidx(w)
        c.st.fact(AppFact(M, lambda t: Implies(And(t >= 0, t < w), M(t) == 0), 'nomodule'))
        own = MODV(M(w), s.p)
        cur = And(CURMOD != 0, c.is_(CURMOD, 'MODULE'))
        curv = MODV(c.value(CURMOD), s.p)
        g = gaddr(c, 'g_env')
        ge = FIND(g, s.p, BoolVal(False))
        if where == 'own':
            c.assume(w < ch.n, M(w) != 0, own != 0)
            c.post(lambda R: [('the module of the innermost scope that has one', R.v == own, dict(idx=[w]))])
            return
        c.assume(Or(w == ch.n, And(w < ch.n, M(w) != 0, own == 0)))
        if where == 'current':
            c.assume(cur, curv != 0)
            c.post(lambda R: [('the current module', R.v == curv, dict(idx=[w]))])
            return
        c.assume(Or(Not(cur), curv == 0))
        if where == 'global':
            c.assume(env != g, ge != 0)
            c.post(lambda R: [('the global binding', R.v == Select(init0(VAL), ge), dict(idx=[w]))])
        else:
            c.assume(Or(env == g, ge == 0))
            c.post(lambda R: [('not found', R.v == 0, dict(idx=[w]))])
    return f


S_.add(SR, 'a name with no lexical binding: the module the code belongs to', sr_outer('own'))
S_.add(SR, 'a name with no lexical binding and none in its module: the current module', sr_outer('current'))
S_.add(SR, 'a name bound nowhere else: the global binding', sr_outer('global'))
S_.add(SR, 'a name bound nowhere', sr_outer('none'))

EV = 'C:eval_with_env/2'
FINDV = z3.Function('lookup', I, I, I)


def kwform(c, kw, *elems, tail=None, opaque=()):
    from evalmodel import PRESERVED
    """the form (kw elems ...); the keyword itself is bound nowhere, every other name arbitrarily"""
    k = c.symbol('kw', kw)
    z = lambda ex, st, args, ins, f: ret(st, IntVal(0))
    for n in ('scm_env_exist', 'module_obarray_lookup', 'scm_current_module'):
        c.ex.builtins[n] = z

    def se(ex, st, args, ins, f):
        e, s = [simp(ex.ptrval(x)) for x in args[:2]]
        if s.get_id() == simp(k.v).get_id():
            return ret(st, IntVal(0))
        ex.note_assume('scm_env_search_entry is used through its own contract (its behaviours are verified)')
        r = FIND(e, s, args[2] if z3.is_bool(args[2]) else args[2] != 0)
        st.assume(And(r >= 0, r < st.ghost['A0']))
        st.assume(Implies(FIND(e, s, BoolVal(False)) != 0, FIND(e, s, BoolVal(True)) == FIND(e, s, BoolVal(False))))
        return [('ret', st, simp(r), '')]
    c.ex.builtins['scm_env_search_entry'] = se
    c.opaque(eval_with_env=dict(preserve=PRESERVED + ('SCM_Environment.module',)), **{n: dict(hv=False) for n in opaque})
    c.tailcalls('eval_with_env')
    a = c.ast('form', k, *elems, tail=tail)
    c.envp = c.env()
    c.args = [c.envp, a.p]
    c.modifies('any')
    return a


def symeval(c):
    def h(ex, st, args, ins, f):
        ex.note_assume('scm_env_search is used through its own contract (its behaviours are verified)')
        r = FINDV(*[simp(ex.ptrval(x)) for x in args])
        st.assume(And(r >= 0, r < st.ghost['A0']))
        return [('ret', st, simp(r), '')]
    c.ex.builtins['scm_env_search'] = h
    c.opaque(eval_with_env=1)
    c.tailcalls('eval_with_env')
    s = c.sym('s')
    c.envp = c.env()
    c.args = [c.envp, s.p]
    c.modifies('any')
    return s


@S_(EV, 'a variable reference gives the value the lookup finds in the current scope')
def _(c):
    s = symeval(c)
    c.assume(s.n > 0, s.at(0) != ord(':'), FINDV(c.envp, s.v) != 0)
    c.post(lambda r: [('the value found', r.v == FINDV(c.envp, s.v))])


@S_(EV, 'a reference to an unbound variable raises an error')
def _(c):
    s = symeval(c)
    c.assume(s.n > 0, s.at(0) != ord(':'), FINDV(c.envp, s.v) == 0)
    c.err()


@S_(EV, 'a keyword evaluates to itself')
def _(c):
    s = symeval(c)
    c.assume(s.n > 0, s.at(0) == ord(':'))
    c.post(lambda r: [('itself', r.v == s.p)])


@S_(EV, 'set! of a visible variable: the value replaces that binding, the innermost, and no other')
def _(c):
    s, x = c.sym('s'), c.any('expr')
    kwform(c, 'set!', s, x)
    e = FIND(c.envp, s.v, BoolVal(True))
    c.assume(e != 0)
    a = z3.Int('otherbinding')

    def post(r):
        yield 'the expression is evaluated once', BoolVal(len(r.ev) == 1)
        if len(r.ev) != 1:
            return
        yield 'in the current scope', And(r.ev[0].args[0] == c.envp, r.ev[0].args[1] == x.p)
        yield 'the binding holds the value', r.get(VAL, e) == r.ev[0].res
        yield 'no other binding changes', Implies(a != e, r.get(VAL, a) == Select(r.ev[0].extra[VAL], a)), dict(idx=[a])
    c.post(post)


def localscope(c):
    m = c.get('SCM_Environment.module', c.envp)
    p = c.get('SCM_Environment.parent', c.envp)
    c.assume(p > 0, m == c.get('SCM_Environment.module', p))


@S_(EV, 'define of a variable in a body binds it in that scope only')
def _(c):
    s, x = c.sym('s'), c.any('expr')
    kwform(c, 'define', s, x, opaque=['scm_env_insert', 'scm_c_hash_set_eq'])
    localscope(c)

    def post(r):
        yield 'one evaluation, one binding', BoolVal([e.name for e in r.ev] == ['eval_with_env', 'scm_env_insert'])
        if len(r.ev) != 2:
            return
        a, b = r.ev
        yield 'the expression in the current scope', And(a.args[0] == c.envp, a.args[1] == x.p)
        yield 'bound in the current scope', And(b.args[0] == c.envp, b.args[1] == s.v, b.args[2] == a.res, Not(b.args[3]) if z3.is_bool(b.args[3]) else b.args[3] == 0)
    c.post(post)


@S_(EV, 'define of a procedure in a body binds a closure over that scope, in that scope only')
def _(c):
    s = c.sym('s')
    ps, bs = c.list_cells('params', minlen=0), c.list_cells('body', minlen=1)
    sig = c.ast('sig', s, tail=ps)
    kwform(c, 'define', sig, tail=bs, opaque=['scm_env_insert', 'scm_c_hash_set_eq'])
    localscope(c)

    def post(r):
        yield 'nothing is evaluated; one binding', BoolVal([e.name for e in r.ev] == ['scm_env_insert'])
        if len(r.ev) != 1:
            return
        b = r.ev[0]
        yield 'bound in the current scope', And(b.args[0] == c.envp, b.args[1] == s.v, Not(b.args[3]) if z3.is_bool(b.args[3]) else b.args[3] == 0)
        f = b.args[2]
        p = r.get('SCM.value', f)
        yield 'a fresh procedure', And(f >= c.A0, r.get('SCM.type', f) == T['PROC'], p >= c.A0)
        yield 'that closes over the current scope', r.get('SCM_Procedure.env', p) == c.envp
        yield 'its parameters', r.get('SCM_Procedure.args', p) == ps.W(IntVal(0))
        yield 'its body', r.get('SCM_Procedure.body', p) == bs.W(IntVal(0))
    c.post(post)


@S_(EV, 'lambda makes a closure over the current scope and evaluates nothing')
def _(c):
    ps = c.any('paramlist')
    ty = c.type(ps.p)
    c.assume(Or(ty == T['LIST'], ty == T['NIL'], ty == T['SYM']))
    bs = c.list_cells('body', minlen=1)
    kwform(c, 'lambda', ps, tail=bs)

    def post(r):
        yield 'nothing is evaluated', BoolVal(len(r.ev) == 0)
        f = r.v
        p = r.get('SCM.value', f)
        yield 'a fresh procedure', And(f >= c.A0, r.get('SCM.type', f) == T['PROC'], p >= c.A0)
        yield 'closing over the current scope', r.get('SCM_Procedure.env', p) == c.envp
        yield 'its body', r.get('SCM_Procedure.body', p) == bs.W(IntVal(0))
        a = r.get('SCM_Procedure.args', p)
        yield 'its parameters', Implies(ty == T['LIST'], a == c.value(ps.p))
        yield 'no parameters', Implies(ty == T['NIL'], a == c.value(ps.p))
        yield 'a single name takes all arguments', Implies(ty == T['SYM'], And(a >= c.A0, r.get('SCM_List.data', a) == ps.p, r.get('SCM_List.next', a) == 0, r.get('SCM_List.is_dotted', a) == 1))
    c.post(post)


def conform(G):
    import refscheme
    refscheme.add(G, G.n(2500, 20000), {'shadow': 4, 'inner': 6, 'closure': 6, 'let': 6, 'letstar': 4, 'letrec': 4, 'lam': 5, 'named': 3, 'do': 3, 'trace': 4, 'var': 8}, 5)
    refscheme.add(G, G.n(500, 4000), {'shadow': 8, 'inner': 8, 'closure': 8, 'lit': 1, 'var': 10}, 4, ['x', 'y'])
    refscheme.add_toplevel(G, G.n(250, 2500))
    refscheme.add_toplevel(G, G.n(150, 1500), {'shadow': 6, 'closure': 6}, ['x', 'y', 'car', 'length'])
    # programs' own bindings hide builtins, special-form-like procedures and macros
    for n in ('list', 'map', 'for-each', 'apply', 'car', '+', 'append', 'not', 'vector-ref', 'call/cc', 'force', 'assq', 'max', 'length', 'eval', 'dynamic-wind', 'values'):
        G.case("((lambda (%s) (%s 1 2)) (lambda (a b) (cons b a)))" % (n, n), '(2 . 1)')
        G.case("(let ((%s (lambda (a b) (cons b a)))) (%s 1 2))" % (n, n), '(2 . 1)')
        G.case("(let () (define (%s a b) (cons b a)) (%s 1 2))" % (n, n), '(2 . 1)')
        G.case("(let () (define %s (lambda (a b) (cons b a))) (%s 1 2))" % (n, n), '(2 . 1)')
        G.case("(letrec ((%s (lambda (a b) (cons b a)))) (%s 1 2))" % (n, n), '(2 . 1)')
        G.case("(let ((f (lambda () 5)) (%s 7)) (list (f) %s))" % (n, n), '(5 7)' if n != 'list' else 'ERR')
    G.case("(begin (define zz-a 1) (define (zz-f) zz-a) (set! zz-a 5) (zz-f))", '5')
    G.case("(let ((c (lambda () (let ((n 0)) (lambda () (set! n (+ n 1)) n))))) (let ((a (c)) (b (c))) (a) (a) (list (a) (b))))", '(3 1)')
    G.case("(let ((x 1)) (let ((f (lambda () x))) (let ((x 2)) (list (f) x))))", '(1 2)')
    G.case("(let ((x 1)) (define (f) (define x 2) (set! x 3) x) (list (f) x))", '(3 1)')
    G.case("(let ((x 1)) (let ((g (lambda () (set! x (+ x 1)) x)) (x 50)) (list (g) (g) x)))", '(2 3 50)')
    # names that differ only in their last character, or only in their length
    for n in [8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300] + [h for h in G.hint if 8 < h < 700]:
        p = 'n' * (n - 1)
        a, b, l = p + 'a', p + 'b', p + 'bc'
        G.case('(let ((%s 1) (%s 2) (%s 3)) (set! %s 4) (list %s %s %s))' % (a, b, l, b, a, b, l), '(1 4 3)')
        G.case('(let ((%s 1)) (let ((%s 2) (%s 3)) (set! %s 5) (list %s %s %s)))' % (a, b, l, a, a, b, l), '(5 2 3)')
        G.case('(let () (define %s 1) (define %s 2) (define %s 3) (list %s %s %s))' % (a, b, l, a, b, l), '(1 2 3)')
        G.case('((lambda (%s %s %s) (list %s %s %s)) 1 2 3)' % (l, a, b, a, b, l), '(2 3 1)')
        G.case('(begin (define t%s 1) (define t%s 2) (define t%s 3) (set! t%s 7) (list t%s t%s t%s))' % (a, b, l, a, a, b, l), '(7 2 3)')
    for n in (20, 60, 70, 200):
        G.case('(let (%s) (list v0 v%d v%d))' % (' '.join('(v%d %d)' % (i, i) for i in range(n)), n // 2, n - 1), '(0 %d %d)' % (n // 2, n - 1))
        G.case('((lambda (%s) (list v0 v%d v%d)) %s)' % (' '.join('v%d' % i for i in range(n)), n // 2, n - 1, ' '.join(map(str, range(n)))), '(0 %d %d)' % (n // 2, n - 1))
        G.case('(let () %s (set! v0 -1) (list v0 v%d v%d))' % (' '.join('(define v%d %d)' % (i, i) for i in range(n)), n // 2, n - 1), '(-1 %d %d)' % (n // 2, n - 1))
