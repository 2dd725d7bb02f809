"""Calls whose callee is arbitrary Scheme code (the evaluator, user procedures): the callee is
represented by a contract, not a body.  Contract: it may do anything to the heap except the
listed preserved parts, returns some valid object (or raises), and the call is recorded in an
event trace over which control-flow properties are stated."""
import os
from engine import *
from builtin_fns import *
from symex import *

PRESERVED = ('SCM.type', 'SCM.value', 'SCM_List.data', 'SCM_List.next', 'SCM_List.is_dotted', 'SCM_Symbol.data', 'SCM_Symbol.len', 'mem1',
             'SCM_Procedure.name', 'SCM_Procedure.args', 'SCM_Procedure.body', 'SCM_Procedure.env', 'SCM_Function.name', 'SCM_Function.n_args',
             'SCM_Function.func_ptr', 'SCM_Function.generic', 'SCM_String.data', 'SCM_String.len', 'SCM_Promise.thunk', 'SCM_Environment.parent')


class Event:
    __slots__ = ('name', 'args', 'res', 'ty', 'va', 'extra')

    def __init__(self, name, args, res, ty, va, extra=None):
        self.name, self.args, self.res, self.ty, self.va, self.extra = name, args, res, ty, va, extra

    def subst(self, it, j):
        s = lambda t: simp(z3.substitute(t, (it, j))) if z3.is_expr(t) else t
        return Event(self.name, tuple(s(a) for a in self.args), s(self.res), s(self.ty), s(self.va), self.extra)

    def same(self, o):
        def eq(a, b):
            return (a is b) or (z3.is_expr(a) and z3.is_expr(b) and a.get_id() == b.get_id())
        return isinstance(o, Event) and self.name == o.name and len(self.args) == len(o.args) and all(eq(a, b) for a, b in zip(self.args, o.args)) and eq(self.res, o.res)

    @property
    def truthy(self):
        return Not(And(self.ty == T['BOOL'], self.va == 0))

    def __repr__(self):
        return '%s(%s)->%s' % (self.name, ','.join(str(a) for a in self.args), self.res)


class Rep:
    """n repetitions of an event template in ghost counter `it`"""

    def __init__(self, it, n, tmpl):
        self.it, self.n, self.tmpl = it, n, tmpl

    def at(self, j):
        return [e.subst(self.it, j) for e in self.tmpl]

    def same(self, o):
        return isinstance(o, Rep) and self.it.get_id() == o.it.get_id() and self.n.get_id() == o.n.get_id() and len(self.tmpl) == len(o.tmpl) and all(a.same(b) for a, b in zip(self.tmpl, o.tmpl))

    def __repr__(self):
        return 'Rep(%s x %s)' % (self.n, self.tmpl)


def havoc(ex, st, preserve=PRESERVED, keepglobals=False, at=None):
    ex.note_assume('arbitrary Scheme code called from the function: may change anything except object headers, list cells and string bytes that already existed (program text is not self-modified)')
    A1 = simp(st.A)
    args = list(st.loops)
    gid = None
    if at is not None and not os.environ.get("NOMEMO"):
        # paths that reach the call with the same arguments and the same memory agree on its effect
        arrs = [A1] + args + [x for x in at if z3.is_expr(x)] + [st.maps[k].array() for k in sorted(st.maps)]
        key = (tuple(x if isinstance(x, (str, int)) else None for x in at), tuple(sorted(st.maps)), tuple(x.get_id() for x in arrs))
        memo = ex.__dict__.setdefault('evmemo', {})
        if key in memo:
            gid = memo[key][0]
        else:
            gid = next(ex.n)
            memo[key] = (gid, arrs)
    if gid is None:
        gid = next(ex.n)
    nm = 'A@%d' % gid
    A2 = z3.Function(nm, *[I] * len(args), I)(*args) if args else z3.Int(nm)
    if args:
        IDXDECLS.add(A2.decl().get_id())
    st.A = A2
    st.assume(And(A2 >= A1, A2 < (1 << 61)))
    st.ghost[('A', gid)] = A2
    stack = st.ghost.get('stack', ())
    st.ghost['gen'] = True
    keys = set(st.maps) | set(k for k in ex.fieldtypes) | {'mem1', 'mem2', 'mem4', 'mem8'}
    for key in sorted(keys):
        if key == 'SCM.source_loc' or (key.startswith(ex.nohavoc) and key not in st.maps):
            continue
        old = ex.getmap(st, key)
        nm = '%s@%d' % (key, gid)
        nb = z3.Function(nm, *[I] * len(args), ARR)(*args) if args else z3.Const(nm, ARR)
        if key in preserve:
            oldarr = old.array()
            m = MapVal(nb, (), ((lambda a, A1=A1: a < A1, lambda ex, s, a, key=key, old=old: ex.readmap(s, key, old, a)),))
            m.hist = getattr(old, 'hist', ()) + (('fresh', A1),)

            def fact(base, a, A1=A1, oldarr=oldarr, args=args):
                sub = [(x, y) for x, y in zip(args, base.children()) if x.get_id() != y.get_id()]
                f = Implies(a < A1, Select(base, a) == Select(oldarr, a))
                if sub:
                    f = Implies(z3.substitute(a < A1, sub), Select(base, a) == Select(z3.substitute(oldarr, sub), a))
                return f
            st.fact(MapFact(nb.decl(), fact, 'preserve:' + key))
        else:
            m = MapVal(nb, ())
            m.hist = getattr(old, 'hist', ()) + (('any',),)
            inarr = []
            for a, n in st.ghost.get('stackarr', ()):
                for x, _ in old.log:
                    d = simp(x - a)
                    if z3.is_int_value(d) and 0 <= d.as_long() < n and not any(x.get_id() == q.get_id() for q in inarr):
                        inarr.append(x)
            for a in tuple(stack) + tuple(inarr):
                if any(x.get_id() == a.get_id() for x, _ in old.log):
                    m = m.store(a, ex.read(st, key, a))
                    m.hist = getattr(old, 'hist', ()) + (('any',),)
            if keepglobals:
                for a, v in old.log:
                    if z3.is_int_value(a) and a.as_long() < 0:
                        m = m.store(a, ex.read(st, key, a))
                        m.hist = getattr(old, 'hist', ()) + (('any',),)
        st.maps[key] = m
    return gid


def opaque(name, canraise=True, nullable=False, hv=True, preserve=PRESERVED, result='obj', argsel=None, keepglobals=False, then=None):
    def h(ex, st, args, ins, f):
        args = tuple(simp(ex.ptrval(a)) if not z3.is_bool(a) else a for a in args)
        if hv:
            gid = havoc(ex, st, preserve, keepglobals, at=(name, len(st.ghost.get('ev', ()))) + args)
        if result == 'void' or ins.ty is None or ins.ty.kind == 'void':
            st.ghost['ev'] = st.ghost.get('ev', ()) + (Event(name, args, IntVal(0), IntVal(0), IntVal(0)),)
            return [('ret', st, None, '')]
        if hv:
            nm = 'ret_%s@%d' % (name, gid)
            r = z3.Function(nm, *[I] * len(st.loops), I)(*st.loops) if st.loops else z3.Const(nm, I)
        else:
            # named after its position in the trace, so that paths that differ only before the call agree on it
            nm = 'ret_%s!e%d%s' % (name, len(st.ghost.get('ev', ())), ''.join('_' + str(i) for i in st.loops))
            r = z3.Function(nm, *[I] * len(st.loops), I)(*st.loops) if st.loops else z3.Const(nm, I)
        st.assume(And(r >= 0 if nullable else r > 0, r < st.A))
        if not nullable:
            ty = ex.read(st, 'SCM.type', r)
            va = ex.read(st, 'SCM.value', r)
        else:
            ty = va = IntVal(0)
        e = Event(name, args if argsel is None else tuple(argsel(ex, st, args)), r, ty, va)
        if hv:
            e.extra = {k: m.array() for k, m in st.maps.items()}
        st.ghost['ev'] = st.ghost.get('ev', ()) + (e,)
        out = [('ret', st, r, '')]
        if then is not None:
            then(ex, st, args, r)
        return out
    return h
