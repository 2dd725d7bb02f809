from dsl import *
from evalmodel import Rep, Event, havoc, opaque as oq
S_ = Specs()
jj = z3.Int('jk')


def seq(evs):
    pos = IntVal(0)
    out = []
    for e in evs:
        if isinstance(e, Rep):
            out.append((pos, e.n, e.at, len(e.tmpl)))
            pos = simp(pos + e.n)
        else:
            out.append((pos, IntVal(1), (lambda j, e=e: [e]), 1))
            pos = simp(pos + 1)
    return out, pos


def steps(evs, check, name):
    parts, total = seq(evs)
    for pos, n, at, k in parts:
        if k != 1:
            yield 'one event per step: ' + name, BoolVal(False)
            return
        one = z3.is_int_value(n) and n.as_long() == 1
        j = IntVal(0) if one else jj
        e = at(j)[0]
        for nm, g in check(e, simp(pos + j)):
            yield nm, (g if one else Implies(And(jj >= 0, jj < n), g)), dict(idx=[j, simp(pos + j)])


def res_at(evs):
    parts, total = seq(evs)

    def f(j):
        v = None
        for pos, n, at, k in reversed(parts):
            r = at(simp(j - pos))[0].res
            v = r if v is None else If(j < pos + n, r, v)
        return v if v is not None else IntVal(0)
    return f, total


def quoted(val):
    """the elements are (quote val(i)): an operand whose value is val(i)"""
    def elem(i):
        raise NotImplementedError

    def pred(ex, st, d, i):
        rd = lambda k, a: ex.read(st, k, a)
        cell = rd('SCM.value', d)
        nxt = rd('SCM_List.next', cell)
        return [rd('SCM.type', d) == T['LIST'], rd('SCM_List.data', cell) == z3.Int('OBJ_sym_quote'), nxt != 0, rd('SCM_List.data', nxt) == val(i), rd('SCM_List.next', nxt) == 0]
    elem.pred = pred
    return elem


def evaluating(c, **known):
    """evaluating one of the given expressions yields the given object; evaluating anything else, anything"""
    base = oq('eval_with_env')
    table = list(known.values())

    def h(ex, st, args, ins, f):
        a = [simp(ex.ptrval(x)) for x in args]
        for x, v in table:
            if a[1].get_id() == simp(x).get_id() or ex.pv.entails(st, a[1] == x):
                havoc(ex, st)
                st.ghost['ev'] = st.ghost.get('ev', ()) + (Event('eval_with_env', tuple(a), v, IntVal(0), IntVal(0)),)
                return [('ret', st, v, '')]
        return base(ex, st, args, ins, f)
    c.ex.builtins['eval_with_env'] = h


def named(c, p):
    """the name a builtin was registered with"""
    s = c.sym('builtinname')
    n = simp(c.get('SCM_Function.name', p.v))
    c.assume(n == s.v)
    c.ex.alias[n.get_id()] = (n, s.v)
    return s


def plainname(c, p, words):
    s = named(c, p)
    for w in words:
        c.assume(Or(*[s.at(i) != ord(ch) for i, ch in enumerate(w + '\0')]))


def snapping(c, *names):
    """calls whose arguments are looked at in the state of the call"""
    for n in names:
        base = oq(n)

        def h(ex, st, args, ins, f, base=base):
            snap = st.fork()
            out = base(ex, st, args, ins, f)
            for o in out:
                o[1].ghost['snap'] = snap
            return out
        c.ex.builtins[n] = h


# ---------------------------------------------------------------- apply
AP = 'C:eval_apply/2'


def applycall(c, ty, last=True, nargs=None):
    c.nodebug()
    pe, p = c.any('procexpr'), c.typed('proc', *([ty] if isinstance(ty, str) else ty))
    E_ = c.list_cells('operands', n=nargs)
    a = c.ast('call', c.any('apply'), pe, tail=E_)
    c.E, c.pe, c.p = E_, pe, p
    if last:
        if last == 'nil':
            lv = c.typed('lastval', 'NIL')
            c.V = O(IntVal(0), n=IntVal(0), D=lambda i: IntVal(0))
        else:
            c.V = lv = c.lst('lastval', minlen=1)
    else:
        lv = c.not_('lastval', 'LIST', 'NIL')
    evaluating(c, p=(pe.p, p.p), l=(E_.D(simp(E_.n - 1)), lv.p))
    snapping(c, 'apply_procedure', 'eval_list_with_env')
    base = oq('eval_with_func')

    def ewf(ex, st, args, ins, f):
        node = simp(ex.ptrval(args[1]))
        st.ghost['seen'] = (ex.read(st, 'SCM_List.data', node), ex.read(st, 'SCM_List.next', node))
        return base(ex, st, args, ins, f)
    c.ex.builtins['eval_with_func'] = ewf
    c.envp = c.env()
    c.st.addidx(simp(E_.n - 1))
    c.args = [c.envp, c.value(a.p)]
    c.ex.alias[simp(c.value(a.p)).get_id()] = (simp(c.value(a.p)), a.cells[0])
    c.modifies('any')


def apply_proc(ty, last):
  def f_(c):
    applycall(c, ty, last)
    if ty == 'FUNC':
        plainname(c, c.p, ('apply', 'map'))
        c.opaque(eval_apply=1, eval_map=1)

    def post(r):
        evs = list(r.ev)
        if ty == 'FUNC':
            ok = len(evs) >= 4 and not isinstance(evs[-1], Rep) and not isinstance(evs[-2], Rep) and evs[-1].name == 'eval_with_func' and evs[-2].name == 'eval_list_with_env'
            yield 'operands are evaluated, then the builtin is called', BoolVal(ok), dict(idx=[IntVal(i) for i in range(13)])
            if not ok:
                return
            b, evs = evs[-1], evs[:-1]
            d, n = r.st.ghost['seen']
            yield 'the builtin is called with the operand values', And(b.args[0] == c.p.v, d == c.p.p, n == evs[-1].res, evs[-1].args[0] == c.envp)
            yield 'its value is returned', r.v == b.res
            # (the operand list is an argument of eval_list_with_env)
        ok = len(evs) >= 3 and not any(isinstance(e, Rep) for e in (evs[0], evs[-1])) and evs[-1].name == ('apply_procedure' if ty == 'PROC' else 'eval_list_with_env')
        yield 'operands are evaluated, then the procedure is applied once', BoolVal(ok)
        if not ok:
            return
        e0, call = evs[0], evs[-1]
        yield 'the procedure expression', And(e0.args[0] == c.envp, e0.args[1] == c.pe.p)
        mid = evs[1:-1]
        lead = mid[1:] if not isinstance(mid[0], Rep) else None
        yield 'the last operand is evaluated once', BoolVal(lead is not None)
        if lead is None:
            return
        yield 'the last operand', And(mid[0].args[0] == c.envp, mid[0].args[1] == c.E.D(simp(c.E.n - 1)))
        yield from steps(lead, lambda e, j: [('the other operands are evaluated left to right', And(e.args[0] == c.envp, e.args[1] == c.E.D(j)))], 'operands')
        f, total = res_at(lead)
        m = simp(c.E.n - 1)
        yield 'every operand is evaluated once', total == m
        if ty == 'PROC':
            yield 'the procedure is applied', call.args[1] == c.p.v
            yield 'its value is returned', r.v == call.res
        yield from r.cells_are(r.st.ghost['snap'], call.args[2 if ty == 'PROC' else 1], simp(m + c.V.n), quoted(lambda i: If(i < m, f(i), c.V.D(simp(i - m)))), fresh=True, name='operands')
    c.post(post)


  return f_


for _t, _n in (('PROC', 'closure'), ('FUNC', 'builtin')):
    for _l, _w in ((True, 'the elements of the last, a list'), ('nil', 'nothing else, the last being the empty list')):
        S_.add(AP, 'a %s is applied to the values of the leading operands followed by %s; no value is evaluated again' % (_n, _w), apply_proc(_t, _l), _cost=400 if _l is True else 100)


@S_(AP, 'a last operand that is not a list is an error')
def _(c):
    applycall(c, ('PROC', 'FUNC'), False)
    c.err()


@S_(AP, 'something that is not a procedure is an error')
def _(c):
    applycall(c, ('NUM', 'FLOAT', 'CHAR', 'STR', 'BOOL', 'SYM', 'LIST', 'NIL', 'VECTOR', 'HASH_TABLE', 'PROMISE', 'RATIO'), 'nil')
    c.err()


@S_(AP, 'apply without operands is an error')
def _(c):
    c.opaque(eval_with_env=1, eval_list_with_env=1, apply_procedure=1, eval_with_func=1)
    c.nodebug()
    a = c.ast('call', c.any('apply'))
    c.args = [c.env(), a.cells[0]]
    c.err()


@S_(AP, 'apply with a procedure only is an error')
def _(c):
    c.opaque(eval_with_env=1, eval_list_with_env=1, apply_procedure=1, eval_with_func=1)
    c.nodebug()
    a = c.ast('call', c.any('apply'), c.any('procexpr'))
    c.args = [c.env(), a.cells[0]]
    c.err()


# ---------------------------------------------------------------- map
MP = 'C:eval_map/2'


def mapcall(c, ty, k, empty=None, bad=None):
    """(map proc list1 .. listk): the lists have any lengths; `empty`: which one is the empty list"""
    c.nodebug()
    pe, p = c.any('procexpr'), c.typed('proc', *([ty] if isinstance(ty, str) else ty))
    les = [c.any('listexpr%d' % i) for i in range(k)]
    vals = [c.typed('val%d' % i, 'NIL') if i == empty else c.not_('val%d' % i, 'LIST', 'NIL') if i == bad else c.lst('val%d' % i, minlen=1) for i in range(k)]
    a = c.ast('call', c.any('map'), pe, *les)
    c.pe, c.p, c.les, c.vals = pe, p, les, vals
    known = {'p': (pe.p, p.p)}
    for i in range(k):
        known['l%d' % i] = (les[i].p, vals[i].p)
    c.assume(z3.Distinct(pe.p, *[x.p for x in les]))
    evaluating(c, **known)
    c.opaque(apply_procedure=1, eval_list_with_env=1, eval_with_func=1)
    c.envp = c.env()
    c.args = [c.envp, a.cells[0]]
    c.modifies('any')


def mapping(ty, k):
    def f(c):
        mapcall(c, ty, k)
        if ty == 'FUNC':
            plainname(c, c.p, ())

        def operands(R, args, q):
            el = lambda i: c.vals[simp(i).as_long()].D(q) if z3.is_int_value(simp(i)) and 0 <= simp(i).as_long() < k else IntVal(0)
            R.st.addidx(q)
            yield from R.cells_are(R.st, args[2 if ty == 'PROC' else 1], IntVal(k), quoted(el), fresh=True, name='operands are the elements at that position')
        c.atcall('apply_procedure' if ty == 'PROC' else 'eval_list_with_env', operands)

        def callnode(R, args, q):
            d, nx = R.get('SCM_List.data', args[1]), R.get('SCM_List.next', args[1])
            evs = [e for e in R.st.ghost['ev']]
            ok = evs and not isinstance(evs[-1], Rep) and evs[-1].name == 'eval_list_with_env'
            yield 'the operands are evaluated just before the call', BoolVal(bool(ok))
            if ok:
                yield 'the builtin gets the operand values', And(args[0] == c.p.v, d == c.p.p, nx == evs[-1].res, evs[-1].args[0] == c.envp)
        if ty == 'FUNC':
            c.atcall('eval_with_func', callnode)
        n = c.vals[0].n
        for v in c.vals[1:]:
            n = If(v.n < n, v.n, n)
        n = simp(n)

        def post(r):
            evs = list(r.ev)
            ok = len(evs) > k and not any(isinstance(e, Rep) for e in evs[:k + 1])
            yield 'the operands are evaluated first', BoolVal(ok)
            if not ok:
                return
            yield 'each operand once, left to right, in the calling scope', And(*[And(e.args[0] == c.envp, e.args[1] == x.p) for e, x in zip(evs[:k + 1], [c.pe] + c.les)])
            total, parts = IntVal(0), []
            apps = evs[k + 1:]
            m = 1 if ty == 'PROC' else 2
            i = 0
            while i < len(apps):
                e = apps[i]
                if isinstance(e, Rep):
                    names = [x.name for x in e.tmpl]
                    parts.append((total, e.n, lambda j, e=e: e.at(j)[-1].res))
                    total = simp(total + e.n)
                    i += 1
                else:
                    names = [getattr(x, 'name', '') for x in apps[i:i + m]]
                    parts.append((total, IntVal(1), lambda j, x=apps[min(i + m, len(apps)) - 1]: x.res))
                    total = simp(total + 1)
                    i += m
                good = names == (['apply_procedure'] if ty == 'PROC' else ['eval_list_with_env', 'eval_with_func'])
                yield 'each position applies the procedure once', BoolVal(good)
                if not good:
                    return
            yield 'one application per position of the shortest list', total == n

            def result(j):
                v = None
                for pos, ln, at in reversed(parts):
                    q = at(simp(j - pos))
                    v = q if v is None else If(j < pos + ln, q, v)
                return v if v is not None else IntVal(0)
            yield from r.ex_list(r.st, r.v, n, result, True, 'results', None, None)
        c.post(post)
        if ty == 'PROC':
            c.atcall('apply_procedure', lambda R, args, q: [('the procedure given is applied', args[1] == c.p.v)])
    return f


for _k in (1, 2):
    for _t, _n in (('PROC', 'closure'), ('FUNC', 'builtin')):
        S_.add(MP, 'a %s over %d list%s: applied to the elements at each position in order, the results in the same order in a fresh list' % (_n, _k, 's' if _k > 1 else ''), mapping(_t, _k), _cost=400)


def noresult(k, empty):
    def f(c):
        mapcall(c, ('PROC', 'FUNC'), k, empty)

        def post(r):
            yield 'the procedure is not applied', BoolVal(len(r.ev) == k + 1 and all(e.name == 'eval_with_env' for e in r.ev))
            yield 'the result is the empty list', And(r.v != 0, r.type == T['NIL'])
        c.post(post)
    return f


for _k, _e in ((1, 0), (2, 0), (2, 1), (3, 1)):
    S_.add(MP, 'over %d list%s, number %d being empty: the empty list' % (_k, 's' if _k > 1 else '', _e + 1), noresult(_k, _e))


@S_(MP, 'something that is not a procedure is an error')
def _(c):
    mapcall(c, ('NUM', 'FLOAT', 'CHAR', 'STR', 'BOOL', 'SYM', 'LIST', 'NIL', 'VECTOR', 'HASH_TABLE', 'PROMISE', 'RATIO'), 1)
    c.err()


def badlist(k, bad):
    def f(c):
        mapcall(c, ('PROC', 'FUNC'), k, None, bad)
        c.err()
    return f


for _k, _e in ((1, 0), (2, 1)):
    S_.add(MP, 'over %d: argument number %d not a list is an error' % (_k, _e + 1), badlist(_k, _e))


@S_(MP, 'map without lists is an error')
def _(c):
    c.opaque(eval_with_env=1, eval_list_with_env=1, apply_procedure=1, eval_with_func=1)
    c.nodebug()
    a = c.ast('call', c.any('map'), c.any('procexpr'))
    c.args = [c.env(), a.cells[0]]
    c.err()


# ---------------------------------------------------------------- for-each
FE = 'C:eval_for_each/2'


def feach(c, ty, k, arity, empty=None, bad=None, same=True):
    """(for-each proc list1 .. listk); arity: how many arguments the procedure takes: a number, 'rest' or 'any'"""
    c.nodebug()
    pe, p = c.any('procexpr'), c.typed('proc', *([ty] if isinstance(ty, str) else ty))
    les = [c.any('listexpr%d' % i) for i in range(k)]
    vals = [c.typed('val%d' % i, 'NIL') if empty in (i, 'all') else c.not_('val%d' % i, 'LIST', 'NIL') if i == bad else c.lst('val%d' % i, minlen=1) for i in range(k)]
    a = c.ast('call', c.any('for-each'), pe, *les)
    c.pe, c.p, c.les, c.vals = pe, p, les, vals
    if same and empty is None and bad is None:
        for v in vals[1:]:
            c.assume(v.n == vals[0].n)
    known = {'p': (pe.p, p.p)}
    for i in range(k):
        known['l%d' % i] = (les[i].p, vals[i].p)
    c.assume(z3.Distinct(pe.p, *[x.p for x in les]))
    evaluating(c, **known)
    c.envp = c.env()
    if ty == 'PROC':
        ps = c.get('SCM_Procedure.args', p.v)
        if arity == 0:
            h = IntVal(0)
        else:
            P_ = c.list_cells('params', n=IntVal(arity) if arity != 'rest' else None, dotted=True if arity == 'rest' else None, minlen=1)
            h = P_.W(IntVal(0))
        c.assume(ps == h)
        c.ex.alias[simp(ps).get_id()] = (simp(ps), h)
    elif ty == 'FUNC':
        na = c.get('SCM_Function.n_args', p.v)
        c.assume(na < 0 if arity == 'any' else na == arity)
    c.args = [c.envp, a.cells[0]]
    c.modifies('any')


def feaching(ty, k, arity):
    def f(c):
        feach(c, ty, k, arity)
        n = c.vals[0].n

        def callexpr(R, args, q):
            # the calls that evaluate the operands of for-each itself come first
            pre = sum(1 for e in R.st.ghost.get('ev', ()) if not isinstance(e, Rep))
            if len(R.st.ghost.get('ev', ())) < k + 1 and z3.is_int_value(q) and q.as_long() <= k:
                return
            j = simp(q - (k + 1))
            R.st.addidx(j)
            nd = R.get('SCM.value', args[1])
            yield 'a call expression is evaluated in the calling scope', And(args[0] == c.envp, R.get('SCM.type', args[1]) == T['LIST'], nd != 0)
            yield 'its operator is the procedure', R.get('SCM_List.data', nd) == c.p.p
            el = lambda i: c.vals[simp(i).as_long()].D(j) if z3.is_int_value(simp(i)) and 0 <= simp(i).as_long() < k else IntVal(0)
            yield from R.cells_are(R.st, R.get('SCM_List.next', nd), IntVal(k), quoted(el), fresh=True, name='its operands are the elements at that position')
        c.atcall('eval_with_env', callexpr)

        def post(r):
            evs = list(r.ev)
            ok = len(evs) > k and not any(isinstance(e, Rep) for e in evs[:k + 1])
            yield 'the operands are evaluated first', BoolVal(ok)
            if not ok:
                return
            yield 'each operand once, left to right, in the calling scope', And(*[And(e.args[0] == c.envp, e.args[1] == x.p) for e, x in zip(evs[:k + 1], [c.pe] + c.les)])
            apps = evs[k + 1:]
            yield from steps(apps, lambda e, j: [('each position applies the procedure once', BoolVal(e.name == 'eval_with_env'))], 'applications')
            yield 'one application per position', seq(apps)[1] == n
            yield 'no value', And(r.v != 0, r.type == T['NONE'])
        c.post(post)
    return f


for _k in (1, 2):
    for _t, _a, _n in (('PROC', _k, 'closure'), ('FUNC', 'any', 'builtin')):
        S_.add(FE, 'a %s over %d list%s of one length: called with the elements at each position in order' % (_n, _k, 's' if _k > 1 else ''), feaching(_t, _k, _a), _cost=300)
S_.add(FE, 'a closure with a rest parameter over 1 list: called with each element in order', feaching('PROC', 1, 'rest'), _cost=300)


def fnone(k):
    def f(c):
        feach(c, 'FUNC', k, 'any', empty='all')

        def post(r):
            yield 'the procedure is not called', BoolVal(len(r.ev) == k + 1)
            yield 'no value', And(r.v != 0, r.type == T['NONE'])
        c.post(post)
    return f


for _k in (1, 2):
    S_.add(FE, 'over %d empty list%s: nothing is called' % (_k, 's' if _k > 1 else ''), fnone(_k))


def feerr(ty, k, arity, **kw):
    def f(c):
        feach(c, ty, k, arity, **kw)
        c.err()
    return f


S_.add(FE, 'something that is not a procedure is an error', feerr(('NUM', 'FLOAT', 'CHAR', 'STR', 'BOOL', 'SYM', 'LIST', 'NIL', 'VECTOR', 'HASH_TABLE', 'PROMISE', 'RATIO'), 1, None))
S_.add(FE, 'a closure with more parameters than lists is an error', feerr('PROC', 1, 2))
S_.add(FE, 'a closure with fewer parameters than lists is an error', feerr('PROC', 2, 1))
S_.add(FE, 'a builtin with another number of parameters than lists is an error', feerr('FUNC', 2, 1))
S_.add(FE, 'no list is an error', feerr('FUNC', 0, 'any'))
S_.add(FE, 'an argument that is not a list is an error', feerr('FUNC', 2, 'any', bad=1))
S_.add(FE, 'one empty list, the other not: an error', feerr('FUNC', 2, 'any', empty=1))


@S_(FE, 'lists of different lengths are an error')
def _(c):
    feach(c, 'FUNC', 2, 'any', same=False)
    c.assume(c.vals[0].n != c.vals[1].n)
    c.err()


def conform(G):
    import refscheme
    rnd = G.rng
    E = 'ERR'

    def datum(d=2):
        k = rnd.randrange(7 if d else 5)
        if k == 0:
            return str(rnd.randrange(-99, 99))
        if k == 1:
            return rnd.choice(['a', 'car', 'x', 'quote', 'undefined-name', 'if'])
        if k == 2:
            return rnd.choice(['#t', '#f', '()'])
        if k == 3:
            return '"%s"' % rnd.choice(['', 's', 'two words'])
        if k == 4:
            return '(quote %s)' % rnd.choice('abc')
        return '(%s)' % ' '.join(datum(d - 1) for _ in range(rnd.randrange(1, 4)))

    def lst(x):
        return '(%s)' % ' '.join(x) if x else '()'
    procs = [('list', 0, 99, lst), ('(lambda r r)', 0, 99, lst), ('(lambda (a . r) (cons a r))', 1, 99, lst), ('(lambda (a b) (list b a))', 2, 2, lambda x: lst(x[::-1])),
             ('(lambda (a) (list a))', 1, 1, lst), ('vector', 0, 99, lambda x: '#' + lst(x) if x else '#()'), ('(let ((k 5)) (lambda x (list k x)))', 0, 99, lambda x: '(5 %s)' % lst(x)),
             ('(lambda (a b c) (list c a b))', 3, 3, lambda x: lst([x[2], x[0], x[1]])), ('list', 0, 99, lst)]
    q = lambda d: "'" + d
    for _ in range(G.n(500, 4000)):
        f, lo, hi, fn = rnd.choice(procs)
        lead = [datum() for _ in range(rnd.randrange(0, 4))]
        last = [datum() for _ in range(rnd.randrange(0, 5))]
        x = lead + last
        call = '(apply %s%s %s)' % (f, ''.join(' ' + q(d) for d in lead), q(lst(last)))
        if rnd.randrange(3) == 0:
            call = '(let ((p %s) (l %s)) (apply p%s l))' % (f, q(lst(last)), ''.join(' ' + q(d) for d in lead))
        elif rnd.randrange(4) == 0:
            call = '(apply apply (list %s%s %s))' % (f, ''.join(' ' + q(d) for d in lead), q(lst(last)))
        G.case(call, fn(x) if lo <= len(x) <= hi else E)
    for _ in range(G.n(500, 4000)):
        f, lo, hi, fn = rnd.choice(procs)
        k = rnd.choice([1, 1, 1, 2, 2, 3])
        ls = [[datum() for _ in range(rnd.choice([0, 1, 2, 3, 5]))] for _ in range(k)]
        n = min(map(len, ls))
        want = lst([fn([l[i] for l in ls]) for i in range(n)]) if lo <= k <= hi or n == 0 else E
        m = rnd.choice(['map', 'map', 'map', 'map-in-order'])
        ops = ''.join(' ' + q(lst(l)) for l in ls)
        call = rnd.choice(['(%s %s%s)' % (m, f, ops), '(let ((p %s)) (%s p%s))' % (f, m, ops), '(apply %s %s (list%s))' % (m, f, ops)])
        G.case(call, want)
        if rnd.randrange(2):
            n2 = n if len(set(map(len, ls))) == 1 else None
            body = '(let ((acc (quote ()))) (for-each (lambda r (set! acc (cons (apply %s r) acc)))%s) acc)' % (f, ops)
            if n2 is not None:
                G.case(body, lst([fn([l[i] for l in ls]) for i in range(n2)][::-1]) if lo <= k <= hi or n2 == 0 else E)
            else:
                G.case(body, E)
    # order of application, once per position
    for k in range(0, 7):
        l = ' '.join(str(i) for i in range(k))
        up = l
        down = ' '.join(str(i) for i in reversed(range(k)))
        for m in ('map', 'map-in-order', 'for-each'):
            G.case("(let ((acc '())) (%s (lambda (x) (set! acc (cons x acc)) x) '(%s)) acc)" % (m, l), '(%s)' % down)
        # escaping in the middle; the operands are left alone
        G.case("(let ((l (list %s))) (map (lambda (x) (* x x)) l) l)" % l, '(%s)' % up)
        G.case("(call/cc (lambda (k) (map (lambda (x) (if (= x %d) (k (list 'out x)) x)) '(%s)) 'done))" % (k // 2, l), '(out %d)' % (k // 2) if k else 'done')
        G.case("(call/cc (lambda (k) (for-each (lambda (x) (if (= x %d) (k (list 'out x)) x)) '(%s)) 'done))" % (k // 2, l), '(out %d)' % (k // 2) if k else 'done')
    # a fresh list
    G.case("(let* ((l (list 1 2 3)) (m (map (lambda (x) x) l))) (set-car! m 9) (list l m))", '((1 2 3) (9 2 3))')
    G.case("(let* ((l (list 1 2 3)) (m (apply list l))) (set-car! m 9) (list l m))", '((1 2 3) (9 2 3))')
    for bad in ("'a", '"s"', '#t', '5', '1.5', '(vector 1 2)'):
        G.case("(map car %s)" % bad, E)
        G.case("(map list '(1) %s)" % bad, E)
        G.case("(for-each list %s)" % bad, E)
        G.case("(apply list %s)" % bad, E)
        G.case("(apply list 1 %s)" % bad, E)
        if bad != '5':
            G.case("(map %s '(1 2))" % bad, E)
            G.case("(apply %s '(1 2))" % bad, E)
            G.case("(for-each %s '(1 2))" % bad, E)
    for c in ('(map)', '(map car)', '(apply)', '(apply car)', '(for-each)', '(for-each car)'):
        G.case(c, E)
    refscheme.add(G, G.n(1200, 10000), {'mapp': 10, 'foreach': 8, 'apply': 10, 'lam': 6, 'rest': 4, 'trace': 6, 'ccc': 1, 'call': 4}, 5)


BUDGET = 430
