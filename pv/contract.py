"""Contract language: pre/post/frame per behaviour, attached to the real functions
(found through the interpreter's own registration calls or by C name)."""
import os
import sys, os, time, traceback
from symex import *
from builtin_fns import *
from symex_types import Spine

IGNORED_KEYS = {'SCM.source_loc', 'SCM_SourceLocation.filename', 'SCM_SourceLocation.line', 'SCM_SourceLocation.column'}


def init0(key):
    return z3.Const(key + '@0', ARR)


def registrations(prog):
    """Scheme name -> (IR function, required, optional, rest, kind), read from the init code of the current tree"""
    out = {}
    for M in prog.modules:
        for fn in M.funcs.values():
            for b in fn.blocks.values():
                for ins in b:
                    if ins.op not in ('call', 'invoke'):
                        continue
                    c = ins.x['callee']
                    if c.kind != 'global':
                        continue
                    s = demangle(c.v)
                    if s in ('scm_define_function', 'scm_define_vararg_function', 'scm_define_generic_function'):
                        a = ins.args
                        g = M.globals.get(a[0].v) if a and a[0].kind == 'global' else None
                        if not g or g[1] is None or g[1].kind != 'str':
                            continue
                        name = cstr(g[1])[:-1].decode('latin1')
                        if s == 'scm_define_function':
                            req, opt, rst = [x.v for x in a[1:4]]
                            fop = a[4]
                        elif s == 'scm_define_vararg_function':
                            req, opt, rst, fop = 0, 0, 1, a[1]
                        else:
                            req, opt, rst, fop = 0, 0, 1, a[1]
                        if fop.kind != 'global':
                            continue
                        t = prog.lookup(M, fop.v)
                        out[name] = (t, req, opt, rst, s, fop.v, M)
    return out


def split(ex, st, t):
    """case-split a term that is an if-then-else"""
    t = simp(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
        c = t.arg(0)
        out = []
        s1, s2 = st.fork(), st.fork()
        s1.assume(c)
        s2.assume(Not(c))
        if ex.pv.feasible(s1):
            out += split(ex, s1, t.arg(1))
        if ex.pv.feasible(s2):
            out += split(ex, s2, t.arg(2))
        return out
    return [(st, t)]


class Result:
    """final state view"""

    def __init__(self, c, r):
        self.c, self.r, self.st, self.v = c, r, r.st, r.val
        self.ex = c.ex

    def get(self, key, a):
        return self.ex.read(self.st, key, a)

    @property
    def type(self):
        return self.get('SCM.type', self.v)

    @property
    def value(self):
        return self.get('SCM.value', self.v)

    def is_obj(self, t, value=None):
        g = [self.v != 0, self.type == T[t]]
        if value is not None:
            g.append(self.value == value)
        return And(*g)

    def is_bool(self, cond):
        return And(self.v != 0, self.type == T['BOOL'], self.value == b2i(cond))

    def is_num(self, n):
        return self.is_obj('NUM', n)

    def is_char(self, ch):
        return self.is_obj('CHAR', ch)

    def is_(self, t, p=None):
        return self.get('SCM.type', self.v if p is None else p) == T[t]

    @property
    def ev(self):
        return self.st.ghost.get('ev', ())

    def jump(self):
        """the tail-jump expression, or None when the function returned a value"""
        return self.tail_of(calls=False)

    def tail_of(self, name='eval_with_env', calls=True):
        """the expression this call continues with: a tail jump, or a final call whose result is returned; None otherwise"""
        if z3.is_const(self.v) and self.v.decl().name() == 'TAIL':
            t = self.st.ghost.get('tail', {})
            if t.get(1) is None:
                raise Unsupported('tail call expression not identified')
            return t[1], self.ev
        if calls and self.ev and hasattr(self.ev[-1], 'name') and self.ev[-1].name == name and self.ev[-1].res.get_id() == self.v.get_id():
            return self.ev[-1].args[1], self.ev[:-1]
        return None

    def mem8(self, a):
        return self.get('mem8', a)

    def mem1(self, a):
        return self.get('mem1', a)

    # ---- lists
    def list_is(self, n, elem, obj=None, fresh=False, name='result list', dotted_last=None, share=None):
        """obj denotes the proper list elem(0)..elem(n-1) ('() when n = 0).
        fresh: every cell is new (a term k: the first k cells).  share=(pos, ListView, from): cells pos.. are the argument's own cells.
        dotted_last: term d -> improper list whose final cdr is d (n counts the elements before it)"""
        v = self.v if obj is None else obj
        return list(self.ex_list(self.st, v, n, elem, fresh, name, dotted_last, share))

    def ex_list(self, st, v, n, elem, fresh, name, dotted_last, share):
        ex = self.ex
        for s2, vv in split(ex, st, simp(v)):
            ty = ex.read(s2, 'SCM.type', vv)
            for s3, t3 in split(ex, s2, ty):
                if z3.is_int_value(t3) and t3.as_long() == T['NIL'] or ex.pv.entails(s3, t3 == T['NIL']):
                    yield ('%s: empty exactly when the specified list is empty' % name, n == 0, {}, s3)
                    continue
                yield ('%s: is a pair' % name, t3 == T['LIST'], {}, s3)
                h = ex.read(s3, 'SCM.value', vv)
                yield from self.cells_are(s3, h, n, elem, fresh, name, dotted_last, share)

    def cells_are(self, st, h, n, elem, fresh=False, name='cells', dotted_last=None, share=None):
        yield from self._walk(st.fork(), simp(h), IntVal(0), n, elem, fresh, name, dotted_last, share, 0)

    def _walk(self, st, cur, pos, n, elem, fresh, name, dotted, share, depth):
        ex = self.ex
        if depth > 14:
            raise Unsupported('result list has too many segments')
        for s, c in [q for p in split(ex, st, cur) for q in self.norm(p[0], p[1])]:
            if ex.pv.entails(s, c == 0):
                if dotted is None:
                    yield ('%s: has exactly the specified length' % name, n == pos, {}, s)
                else:
                    yield ('%s: ends in the specified dotted tail' % name, BoolVal(False), {}, s)
                continue
            seg = None
            # argument cells
            for sp in s.spines:
                t = sp.match(c)
                if t is not None and sp.hi is not None:
                    seg = (simp(sp.hi - t), lambda j, sp=sp, t=t: sp.at(simp(t + j)), 'old', sp, t)
            if seg is None:
                for a, it, key, lo in sorted(s.ghost.get('strides', ()), key=lambda q: 0 if q[2] == 'SCM_List.data' else 1):
                    if (a.get_id(), it.get_id()) in s.ghost.get('used', ()):
                        continue
                    if key != 'SCM_List.data':
                        continue
                    a0 = simp(z3.substitute(a, (it, IntVal(0))))
                    al = simp(z3.substitute(a, (it, it - 1)))
                    if simp(a0 - c).get_id() == IntVal(0).get_id():
                        seg = (it, lambda j, a=a, it=it: simp(z3.substitute(a, (it, j))), 'fwd', None, None)
                        s.ghost['used'] = s.ghost.get('used', ()) + ((a.get_id(), it.get_id()),)
                        break
                    if simp(al - c).get_id() == IntVal(0).get_id():
                        seg = (it, lambda j, a=a, it=it: simp(z3.substitute(a, (it, it - 1 - j))), 'bwd', None, None)
                        s.ghost['used'] = s.ghost.get('used', ()) + ((a.get_id(), it.get_id()),)
                        break
            if seg is not None and seg[2] != 'old' and not ex.pv.entails(s, seg[0] >= 1):
                # possibly empty stride: split on emptiness
                s1 = s.fork()
                s1.assume(seg[0] >= 1)
                s0 = s.fork()
                s0.assume(seg[0] < 1)
                if ex.pv.feasible(s0):
                    yield from self._walk(s0, simp(z3.substitute(c, (seg[0], IntVal(0)))), pos, n, elem, fresh, name, dotted, share, depth + 1)
                if not ex.pv.feasible(s1):
                    continue
                s = s1
            if seg is None:
                seg = (IntVal(1), lambda j, c=c: c, 'one', None, None)
            ln, at, kind, sp, t = seg
            if os.environ.get('PV_SEG'):
                print('  seg', depth, kind, 'cur', c, 'len', ln, 'pos', pos, [(str(simp(q[0])), q[2], q[3]) for q in s.ghost.get('strides', ())][:4])
            j = z3.Const('lj!%d' % next(ex.n), I)
            if kind == 'one':
                j = IntVal(0)
            sj = s.fork()
            sj.assume(And(j >= 0, j < ln))
            sj.addidx(j)
            if kind != 'one':
                sj.addidx(simp(ln - 1 - j))
                if t is not None:
                    sj.addidx(simp(t + j))
            node = at(j)
            idx = [j, simp(pos + j)]
            last_dotted = False
            if kind == 'old' and sp.dot is not None:
                last_dotted = bool(getattr(sp, 'isdotted', False))
            d = ex.read(sj, 'SCM_List.data', node)
            for g in (elem.pred(ex, sj, d, simp(pos + j)) if hasattr(elem, 'pred') else [d == elem(simp(pos + j))]):
                yield ('%s: element correct' % name, Implies(pos + j < n, g), dict(idx=idx), sj)
            if fresh is not False and fresh is not None:
                g = node >= self.c.A0
                yield ('%s: cell is freshly allocated' % name, g if fresh is True else Implies(pos + j < fresh, g), dict(idx=idx), sj)
            if share is not None:
                p0, L, fr = share
                yield ('%s: tail cells are shared' % name, Implies(pos + j >= p0, node == L.W(simp(fr + pos + j - p0))), dict(idx=idx), sj)
            dt = ex.read(sj, 'SCM_List.is_dotted', node)
            if dotted is None:
                yield ('%s: no dotted marker' % name, dt == 0, dict(idx=idx), sj)
            else:
                yield ('%s: dotted marker exactly on the final cell' % name, (dt != 0) == (pos + j == n), dict(idx=idx), sj)
                yield ('%s: final cdr correct' % name, Implies(pos + j == n, d == dotted), dict(idx=idx), sj)
            if kind != 'one':
                sl = s.fork()
                sl.assume(And(j >= 0, j < ln - 1))
                for q in (simp(ln - 1 - j), simp(ln - 2 - j), j, simp(j + 1)):
                    sl.addidx(q)
                nx = ex.read(sl, 'SCM_List.next', node)
                yield ('%s: cells are linked' % name, nx == at(simp(j + 1)), dict(idx=idx + [simp(j + 1)]), sl)
            pos2 = simp(pos + ln)
            s.addidx(simp(ln - 1))
            lastn = at(simp(ln - 1))
            if kind == 'old' and ex.pv.prove(s, And(lastn > 0, lastn < self.c.A0), timeout=2000, idx=[simp(ln - 1), simp(sp.hi - 1)])[0] == 'proved':
                s.assume(And(lastn > 0, lastn < self.c.A0))
            nxt = simp(ex.read(s, 'SCM_List.next', lastn))
            if kind == 'old' and not z3.is_int_value(nxt) and ex.pv.prove(s, nxt == 0, timeout=2000, idx=[simp(ln - 1), simp(sp.hi - 1)])[0] == 'proved':
                nxt = IntVal(0)
            for s, nxt in [q for p in split(ex, s, nxt) for q in self.norm(p[0], p[1])]:
              if dotted is not None and z3.is_int_value(nxt) and nxt.as_long() == 0:
                yield ('%s: has exactly the specified length' % name, n + 1 == pos2, {}, s)
                continue
              yield from self._walk(s, nxt, pos2, n, elem, fresh, name, dotted, share, depth + 1)

    def norm(self, s, c, deep=True):
        ex = self.ex
        if z3.is_int_value(c) or not z3.is_app(c):
            return [(s, c)]
        if c.decl().kind() != z3.Z3_OP_SELECT or not (c.arg(0).decl().name().startswith('M_') or '@' in c.arg(0).decl().name() and not c.arg(0).decl().name().endswith('@0')):
            return [(s, c)]
        idx = [IntVal(0)]
        for a, it, key, lo in s.ghost.get('strides', ()):
            idx.append(simp(it - 1))
        for q in [IntVal(0)] + self.next_guesses(s, c):
            if q.get_id() == c.get_id():
                continue
            r, _ = ex.pv.prove(s, c == q, timeout=1500, idx=idx)
            if r == 'proved':
                return [(s, q)]
        if not deep:
            return [(s, c)]
        its = {}
        for a, it, key, lo in s.ghost.get('strides', ()):
            its[it.get_id()] = it
        for it in its.values():
            if ex.pv.entails(s, it >= 1) or ex.pv.entails(s, it < 1):
                continue
            s1, s0 = s.fork(), s.fork()
            s1.assume(it >= 1)
            s0.assume(it < 1)
            s0.assume(it == 0)
            r1, r0 = self.norm(s1, c, False), self.norm(s0, c, False)
            if r1[0][1].get_id() != c.get_id() or r0[0][1].get_id() != c.get_id():
                return r1 + r0
        return [(s, c)]

    def next_guesses(self, s, nxt):
        out = []
        for sp in s.spines:
            if sp.hi is not None:
                out.append(sp.at(IntVal(0)))
        for a, it, key, lo in s.ghost.get('strides', ()):
            out.append(simp(z3.substitute(a, (it, IntVal(0)))))
            out.append(simp(z3.substitute(a, (it, it - 1))))
        return out

    def prove(self, g, **k):
        r, _ = self.ex.pv.prove(self.st, g, **k)
        return r == 'proved'


class Ctx:
    def __init__(self, ex, f, nargs):
        self.ex, self.f = ex, f
        st = State()
        st.A = z3.Int('A0')
        st.ghost['A0'] = st.A
        st.assume(st.A > (1 << 12))
        st.assume(st.A < (1 << 47))
        single_facts(st)
        self.st = st
        self.args = []
        self.A0 = st.A
        self.mods = []        # allowed modifications: list of (key, pred(addr))
        self.hints = {}

    # --- inputs
    def scm(self, name):
        """an arbitrary well-formed Scheme object"""
        p = z3.Int(name)
        self.st.assume(And(p > 0, p < self.A0))
        self.type(p)
        return p

    def ptr(self, name, nullable=False):
        p = z3.Int(name)
        self.st.assume(And(p >= 0 if nullable else p > 0, p < self.A0))
        return p

    def int(self, name, bits=64):
        p = z3.Int(name)
        h = 1 << (bits - 1)
        self.st.assume(And(p >= -h, p < h))
        return p

    def assume(self, *g):
        for x in g:
            self.st.assume(x)

    # --- initial heap
    def get(self, key, a):
        return self.ex.read(self.st, key, a)

    def type(self, p):
        return self.get('SCM.type', p)

    def value(self, p):
        return self.get('SCM.value', p)

    def is_(self, p, *ts):
        return Or(*[self.type(p) == T[t] for t in ts]) if len(ts) > 1 else self.type(p) == T[ts[0]]

    def truthy(self, p):
        """everything except #f counts as true"""
        return Not(And(self.type(p) == T['BOOL'], self.value(p) == 0))

    def mem8(self, a):
        return self.get('mem8', a)

    # --- vectors
    def vector(self, p):
        """p is a vector; returns (length, elements buffer)"""
        self.assume(self.is_(p, 'VECTOR'))
        v = self.value(p)
        n = self.get('SCM_Vector.length', v)
        e = self.get('SCM_Vector.elements', v)
        return n, e, v

    # --- lists
    def list_cells(self, name, head=None, proper=True, n=None, minlen=1, dotted=None):
        """a chain of n list cells W(0..n-1), distinct, old; ends with null.
        proper: no cell is a dotted tail; dotted=True: the last cell is a dotted tail (n>=2)"""
        n = z3.Int('len_' + name) if n is None else n
        W = z3.Function('cell_' + name, I, I)
        D = z3.Function('elem_' + name, I, I)
        IDX = z3.Function('pos_' + name, I, I)
        IDXDECLS.update([W.get_id(), D.get_id(), IDX.get_id()])
        nx = init0('SCM_List.next')
        dt = init0('SCM_List.data')
        do = init0('SCM_List.is_dotted')
        A0 = self.A0
        st = self.st
        st.assume(n >= minlen)
        st.assume(n < (1 << 31) - 8)
        dotfn = (lambda t: IntVal(0)) if not dotted else (lambda t: If(t == n - 1, IntVal(1), IntVal(0)))
        sp = Spine(name, W, (), n, nx.decl(), data=lambda t: D(t), inv=lambda a: IDX(a), dot=dotfn)
        st.spines = st.spines + (sp,)
        st.assume(W(n) == 0)
        st.assume(Implies(n >= 1, And(W(0) > 0, W(0) < A0)))
        st.fact(AppFact(W, lambda t: And(Implies(And(t >= 0, t < n), And(W(t) > 0, W(t) < A0, IDX(W(t)) == t, Select(dt, W(t)) == D(t), Select(nx, W(t)) == W(t + 1),
                                                                      Select(do, W(t)) == dotfn(t))),
                                                   Implies(t == n, W(t) == 0)), 'list'))
        st.fact(AppFact(D, lambda t: Implies(And(t >= 0, t < n), And(D(t) > 0, D(t) < A0)), 'elems'))
        st.addidx(IntVal(0))
        st.addidx(n - 1)
        st.addidx(n)
        if head is not None:
            st.assume(self.value(head) == W(0))
        return ListView(self, name, n, W, D, sp)

    def chain(self, name, nkey, fields, n=None, minlen=1, head=None):
        """a null-terminated chain of n distinct old nodes W(0..n-1) linked by nkey; fields: key -> fn(t)"""
        n = z3.Int('len_' + name) if n is None else n
        W = z3.Function('node_' + name, I, I)
        IDX = z3.Function('npos_' + name, I, I)
        IDXDECLS.update([W.get_id(), IDX.get_id()])
        nx = init0(nkey)
        st, A0 = self.st, self.A0
        st.assume(n >= minlen)
        st.assume(n < (1 << 31) - 8)
        sp = Spine(name, W, (), n, nx.decl(), inv=lambda a: IDX(a), nkey=nkey, fields=fields)
        st.spines = st.spines + (sp,)
        st.assume(W(n) == 0)
        st.assume(Implies(n >= 1, And(W(0) > 0, W(0) < A0)))
        st.fact(AppFact(W, lambda t: And(Implies(And(t >= 0, t < n), And(W(t) > 0, W(t) < A0, IDX(W(t)) == t, Select(nx, W(t)) == W(t + 1),
                                                                      *[Select(init0(k), W(t)) == f(t) for k, f in fields.items()])),
                                         Implies(t == n, W(t) == 0)), 'chain'))
        st.addidx(IntVal(0))
        st.addidx(n - 1)
        st.addidx(n)
        if head is not None:
            st.assume(head == W(0))
            self.ex.alias[head.get_id()] = (head, W(IntVal(0)))
        return ListView(self, name, n, W, None, sp)

    def list(self, p, name, **k):
        """p is a non-empty proper list object"""
        self.assume(self.is_(p, 'LIST'))
        v = self.value(p)
        L = self.list_cells(name, **k)
        # the object's value is the first cell: substitute by writing an entry into the initial map
        self.st.assume(v == L.W(0))
        self.ex.alias[v.get_id()] = (v, L.W(IntVal(0)))
        L.obj = p
        return L

    def arglist(self, objs):
        """concrete C argument list (SCM_List* of the given objects), freshly built by the caller"""
        head = IntVal(0)
        st = self.st
        prev = None
        for o in objs:
            a = self.ex.alloc(st, 32, extent=False)
            if prev is None:
                head = a
            else:
                self.ex.write(st, 'SCM_List.next', prev, a)
            self.ex.write(st, 'SCM_List.data', a, o)
            self.ex.write(st, 'SCM_List.is_dotted', a, IntVal(0))
            prev = a
        if prev is not None:
            self.ex.write(st, 'SCM_List.next', prev, IntVal(0))
        return head


class ListView:
    def __init__(self, c, name, n, W, D, sp):
        self.c, self.name, self.n, self.W, self.D, self.sp = c, name, n, W, D, sp

    def elem(self, j):
        return self.D(j)


# ---------------------------------------------------------------- well-formed heap hooks
def wf_type(ex, st, initial, base, a, v):
    st.assume(And(v >= 0, v <= 20))


def wf_value(ex, st, initial, base, a, v):
    st.assume(And(v >= -(1 << 63), v < (1 << 63)))
    if initial:
        t = Select(sib(base, 'SCM.type'), a)
        A0 = genA(st, base)
        st.assume(Implies(Or(*[t == T[x] for x in PTRTYPES]), And(v > 0, v < A0)))
        st.assume(Implies(t == T['BOOL'], And(v >= 0, v <= 1)))
        st.assume(Implies(t == T['CHAR'], And(v >= 0, v <= 255)))
        st.assume(Implies(Or(t == T['NIL'], t == T['NONE']), v == 0))


def wf_listdata(ex, st, initial, base, a, v):
    if initial:
        st.assume(And(v > 0, v < genA(st, base)))


def sib(base, key):
    """the map of another field in the same heap generation"""
    nm = base.decl().name()
    g = nm[nm.rindex('@'):]
    ch = base.children()
    return z3.Function(key + g, *[I] * len(ch), ARR)(*ch) if ch else z3.Const(key + g, ARR)


def genA(st, base):
    nm = base.decl().name()
    g = nm[nm.rindex('@') + 1:]
    if g == '0':
        return st.ghost['A0']
    ch = base.children()
    return z3.Function('A@' + g, *[I] * len(ch), I)(*ch) if ch else z3.Int('A@' + g)


def buffer_hook(lenkey, elsize, kind, plus=0):
    def h(ex, st, initial, base, a, v):
        if not initial:
            return
        A0 = genA(st, base)
        n = simp(Select(sib(base, lenkey), a))
        ex.wfval(st, lenkey, sib(base, lenkey), a, n)
        st.assume(And(n >= 0, n < (1 << 40)))
        size = simp((n + plus) * elsize)
        st.assume(And(v >= 0, v < A0, v + size <= A0))
        st.assume(Implies(n + plus > 0, v > 0))
        st.extents = st.extents + ((v, size),)
        st.ghost[('kind', v.get_id())] = (kind, v)
        if plus == 1:
            st.assume(Select(sib(base, 'mem1'), v + n) == 0)
    return h


def nonneg(hi):
    def h(ex, st, initial, base, a, v):
        if initial:
            st.assume(And(v >= 0, v < hi))
        else:
            st.assume(And(v >= -(1 << 63), v < (1 << 63)))
    return h


def nonnull(ex, st, initial, base, a, v):
    st.assume(And(v > 0, v < genA(st, base)) if initial else And(v >= -(1 << 62), v < UMAX))


GCD = z3.Function('gcd', I, I, I)


def wf_den(ex, st, initial, base, a, v):
    if initial:
        st.assume(And(v > 1, v < (1 << 63)))


WF = {
    'SCM.type': wf_type, 'SCM.value': wf_value, 'SCM_List.data': wf_listdata,
    'SCM_Vector.length': nonneg((1 << 31) - 8), 'SCM_Vector.elements': buffer_hook('SCM_Vector.length', 8, 'scm'),
    'SCM_String.len': nonneg((1 << 31) - 1), 'SCM_String.data': buffer_hook('SCM_String.len', 1, 'char', 1),
    'SCM_Symbol.len': nonneg((1 << 31) - 1), 'SCM_Symbol.data': buffer_hook('SCM_Symbol.len', 1, 'char', 1),
    'SCM_HashTable.capacity': nonneg(1 << 40), 'SCM_HashTable.size': nonneg(1 << 60),
    'SCM_HashTable.buckets': buffer_hook('SCM_HashTable.capacity', 8, 'bucket'),
    'SCM_Rational.denominator': wf_den,
}


# ---------------------------------------------------------------- behaviours
class Behaviour:
    def __init__(self, fn, name, expect, pre, post, mods=None, unroll=False, opts=None):
        self.fn, self.name, self.expect, self.pre, self.post, self.mods = fn, name, expect, pre, post, mods
        self.opts = opts or {}


class Outcome2:
    pass


def new_exec(prog, **k):
    ex = Exec(prog)
    ex.wf = WF
    ex.alias = {}
    ft = {}
    for s in list(prog.structs):
        try:
            n, els = prog.struct_els(s)
        except Unsupported:
            continue
        for i, e in enumerate(els):
            ft[prog.fieldname(n, i)] = e
    ex.fieldtypes = ft
    return ex


def frame_obligations(ex, c, r, mods, pre_maps):
    """nothing that existed before the call is modified, except `mods` = [(key, addr)]"""
    A0 = c.A0
    out = []
    for key, m in r.st.maps.items():
        if key in IGNORED_KEYS:
            continue
        pm = pre_maps.get(key) or ex.map0(key)
        if m is pm:
            continue
        allowed = [a for k, a in mods if k == key]
        if m.base.get_id() == pm.base.get_id():
            from loops import log_new
            for a, v in log_new(pm, m):
                if ex.pv.entails(r.st, a >= A0):
                    continue
                if z3.is_int_value(a) and a.as_long() < 0:
                    if ex.prog.gname.get(a.as_long(), '?') in c.hints.get('globals', ()) or c.hints.get('anyglobal'):
                        continue
                old = ex.readmap(r.st, key, pm, a)
                # the final value at a
                fin = ex.read(r.st, key, a)
                out.append(('frame: %s unchanged' % key, Or(a >= A0, fin == old, *[a == x for x in allowed]), {}))
        else:
            hist = getattr(m, 'hist', ())
            if hist and all(h[0] == 'fresh' and ex.pv.entails(r.st, h[1] >= A0) for h in hist):
                for a, v in m.log:
                    if not ex.pv.entails(r.st, a >= A0):
                        old = ex.readmap(r.st, key, pm, a)
                        fin = ex.read(r.st, key, a)
                        out.append(('frame: %s unchanged' % key, Or(a >= A0, fin == old, *[a == x for x in allowed]), {}))
                continue
            a = z3.Int('frame_addr')
            g = Select(m.array(), a) == Select(pm.array(), a)
            ap = [x(a) if callable(x) else a == x for x in allowed]
            out.append(('frame: %s unchanged' % key, Implies(And(a > 0, a < A0, *[Not(x) for x in ap]), g), {}))
    return out


class Verdict:
    def __init__(self, beh):
        self.beh = beh
        self.obls = []
        self.status = 'proved'      # proved / failed / undecided
        self.reason = ''
        self.paths = 0
        self.touched = set()
        self.assumed = set()
        self.loops = {}
        self.secs = 0
        self.bounded = None
        self.models = []


def verify(prog, f, beh, nargs, timeout=6000, unroll=None, deadline=None):
    t0 = time.time()
    V = Verdict(beh)
    ex = new_exec(prog)
    ex.pv.timeout = timeout
    ex.unroll = unroll
    ex.deadline = deadline
    ex.pv.deadline = deadline
    for k, v in beh.opts.items():
        if k.startswith('_'):
            continue
        if k == 'builtins':
            ex.builtins.update(v)
        elif k == 'loopcand':
            ex.loopcand = list(v)
        else:
            setattr(ex, k, v)
    try:
        c = Ctx(ex, f, nargs)
        if unroll:
            for q in range(unroll + 1):
                c.st.addidx(IntVal(q))
        args = beh.pre(c)
        if args is None:
            args = c.args
        if not ex.pv.feasible(c.st):
            V.status, V.reason = 'undecided', 'precondition is contradictory (vacuous)'
            return V
        pre_maps = dict(c.st.maps)
        c.pre_maps = pre_maps
        rs = ex.run(c.st.fork(), f, args)
        if getattr(c, 'args2', None):
            # the function is called twice: the results of both calls are related
            twice = []
            for r in rs:
                if r.kind != 'ret':
                    r.first = None
                    twice.append(r)
                    continue
                for q in ex.run(r.st.fork(), f, c.args2):
                    q.first = r.val
                    twice.append(q)
            rs = twice
        V.paths = len(rs)
        good = 0
        mods = []
        for r in rs:
            if r.kind == 'abort':
                ex.obls.append(Obl('no crash: ' + r.info, r.st, BoolVal(False), 'abort', r.info))
                continue
            if r.kind == 'err':
                if beh.expect in ('err', 'any'):
                    good += 1
                    for item in (c._errpost(Result(c, r)) if getattr(c, '_errpost', None) else ()):
                        o = Obl(item[0], item[3] if len(item) > 3 else r.st, item[1], 'post', 'non-local exit')
                        o.extra = item[2] if len(item) > 2 else {}
                        ex.obls.append(o)
                else:
                    ex.obls.append(Obl('no error raised (%s)' % r.info, r.st, BoolVal(False), 'outcome', r.info))
                continue
            if beh.expect == 'err':
                ex.obls.append(Obl('an error is raised', r.st, BoolVal(False), 'outcome', 'return'))
                continue
            good += 1
            R = Result(c, r)
            R.first = getattr(r, 'first', None)  # the first of two calls
            if beh.post is not None:
                for item in beh.post(c, R) or ():
                    nm, g = item[0], item[1]
                    kw = item[2] if len(item) > 2 else {}
                    o = Obl(nm, item[3] if len(item) > 3 else R.st, g, 'post', 'return')
                    o.extra = kw
                    ex.obls.append(o)
            md = beh.mods(c, R) if beh.mods else []
            if md != 'any':
                for nm, g, kw in frame_obligations(ex, c, r, md, pre_maps):
                    o = Obl(nm, R.st, g, 'frame', 'return')
                    o.extra = kw
                    ex.obls.append(o)
        if not rs and not ex.truncated:
            V.status, V.reason = 'undecided', 'no path reaches a return'
        seen = {}

        def allobls():
            for o in ex.obls:
                if o.kind != 'atcall':
                    yield o
                    continue
                for item in o.goal() or ():
                    q = Obl(item[0], item[3] if len(item) > 3 else o.state, item[1], 'call', o.where)
                    q.extra = item[2] if len(item) > 2 else {}
                    yield q
        for o in allobls():
            if o.result == 'proved':
                V.obls.append(o)
                continue
            kw = o.extra or {}
            t1 = time.time()
            g = o.goal
            res, model = ex.pv.prove(o.state, g, want_model=True, **kw)
            o.secs = time.time() - t1
            o.result = res
            if os.environ.get('PV_SLOW') and o.secs > 2:
                print('SLOW %6.1f %s %s' % (o.secs, res, o.name), flush=True)
            o.model = model
            V.obls.append(o)
            if res != 'proved':
                if V.status != 'failed':
                    V.status = 'failed' if res == 'failed' else 'undecided'
                    V.reason = '%s [%s] %s' % (o.name, o.where, res)
                if deadline and time.time() > deadline:
                    break
        # vacuity: some path with the expected outcome must be satisfiable
        if V.status == 'proved' and not ex.truncated:
            okc = False
            for r in rs:
                if (r.kind == 'ret' and beh.expect in ('ret', 'any')) or (r.kind == 'err' and beh.expect in ('err', 'any')):
                    res, _ = ex.pv.prove(r.st, BoolVal(False), timeout=3000)
                    if res != 'proved':
                        okc = True
                        break
            if not okc:
                V.status, V.reason = 'undecided', 'vacuous: no satisfiable path with the expected outcome'
    except Unsupported as e:
        V.status, V.reason = 'undecided', 'unsupported: %s' % e
        V.tb = traceback.format_exc()
    except Budget as e:
        V.status, V.reason = 'undecided', 'budget: %s' % e
    except z3.Z3Exception as e:
        V.status, V.reason = 'undecided', 'solver: %s' % e
        V.tb = traceback.format_exc()
    except RecursionError as e:
        V.status, V.reason = 'undecided', 'recursion'
    except Exception as e:
        if os.environ.get('PV_RAISE'):
            raise
        V.status, V.reason = 'undecided', 'internal: %r' % e
        V.tb = traceback.format_exc()
    V.touched = ex.touched
    V.assumed = ex.assumed
    V.loops = ex.loopstats
    V.truncated = ex.truncated
    V.secs = time.time() - t0
    return V
