"""Loop summarisation: ghost iteration counter, closed forms, verified frames and
Houdini-filtered inductive invariants.  Nothing here is trusted to guess right:
every closed form, frame and invariant is re-checked on the final body execution."""
import os
from engine import *


NEXTKEYS = ['SCM_List.next', 'SCM_Environment::List.next', 'SCM_Environment.parent', 'catch_info.prev']


class Cand:
    """candidate invariant on a modified map: for j<hi(t): guard(j) -> M_t[a(j)] == v(j)"""
    __slots__ = ('key', 'a', 'v', 'g', 'mode', 'ok', 'name')

    def __init__(self, key, a, v, g, mode, name):
        self.key, self.a, self.v, self.g, self.mode, self.name = key, a, v, g, mode, name
        self.ok = True

    def sig(self):
        return (self.key, self.a.get_id(), self.v.get_id(), self.g.get_id() if self.g is not None else 0, self.mode)


class NumCand:
    """candidate f(t) (t: number of finished iterations)"""
    __slots__ = ('fn', 'ok', 'name', 'born', 'fails')

    def __init__(self, fn, name, born=0):
        self.fn, self.name, self.ok, self.born = fn, name, True, born
        self.fails = 0


def subst(t, it, j):
    if z3.is_expr(t):
        return z3.substitute(t, (it, j))
    return t


def log_new(head, back):
    """entries of back.log that are not the common prefix with head.log"""
    i = 0
    while i < len(head.log) and i < len(back.log) and head.log[i][0].get_id() == back.log[i][0].get_id() and head.log[i][1].get_id() == back.log[i][1].get_id():
        i += 1
    return back.log[i:]


def nest_next(v, x, decl):
    """v == next[next[..[x]]] : number of selects, else None"""
    k = 0
    while v.get_id() != x.get_id():
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT and (v.arg(0).decl().name() == decl or v.arg(0).decl().name().startswith('M_' + decl[:-2])):
            v = v.arg(1)
            k += 1
        elif z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a = nest_next(v.arg(2), x, decl)
            if a is None:
                a = nest_next(v.arg(1), x, decl)
            return None if a is None else k + a
        else:
            return None
    return k


def install_loops(Exec):
    from types import FunctionType

    def loop(self, st, f, regs, header, prev):
        phis = []
        for ins in f.blocks[header]:
            if ins.op != 'phi':
                break
            phis.append((ins, self.phi_in(st, regs, ins, prev)))
        region = (header, f.loops()[header])
        # ---- fully decided iterations are executed one by one
        mark = len(self.obls)
        ncount = next(self.n)
        limit = self.maxconc
        pend = [(st.fork(), dict(regs), [v for _, v in phis], 0)]
        done = []
        ok = True
        why = ''
        while pend:
            s, rg, vals, k = pend.pop()
            if self.unroll is not None and k > self.unroll:
                self.truncated = True
                continue
            table = self.intable(vals, f, region)
            if self.unroll is None and k >= (64 if table else limit):
                ok = False
                break
            for (ins, _), v in zip(phis, vals):
                rg[ins.dst] = v
            rs = self.exec(s, f, rg, header, None, region, first=True)
            backs = [r for r in rs if r.kind == 'back']
            others = [r for r in rs if r.kind in ('exit', 'ret')]
            if backs and others and self.unroll is None and not self.force_unroll and not table:
                # a counted loop (constant counter, the test at its head decided) that may also be left early
                counted = k < 12 and any(z3.is_int_value(simp(v)) for v in vals if z3.is_expr(v) and not z3.is_bool(v)) and not any(r.kind == 'exit' and r.prev == header for r in others)
                if not counted:
                    ok = False
                    break
            done.extend(r for r in rs if r.kind != 'back')
            for r in backs:
                rr = dict(r.regs)
                pend.append((r.st, rr, [self.phi_in(r.st, r.regs, ins, r.prev) for ins, _ in phis], k + 1))
            if len(pend) > 64:
                ok = False
                break
        if ok:
            return done
        del self.obls[mark:]
        return self.summarise(st, f, regs, header, region, phis)

    def intable(self, vals, f, region):
        """a loop over a constant table (an induction variable is the address of one of its elements, or a number in
        a loop that uses such a table) is executed element by element"""
        def const(g):
            return g is not None and g[2] and g[1] is not None and g[1].kind == 'agg'
        ints = False
        for v in vals:
            v = v if isinstance(v, int) or not z3.is_expr(v) else simp(v)
            if isinstance(v, int) or z3.is_int_value(v):
                ints = True
                a = v if isinstance(v, int) else v.as_long()
                if a < 0 and const(self.prog.gconst.get(self.prog.gname.get(a - a % (1 << 20)))):
                    return True
        if ints:
            for b in region[1]:
                for ins in f.blocks[b]:
                    if ins.op == 'getelementptr' and ins.args and ins.args[0].kind == 'global' and const(f.module.globals.get(ins.args[0].v)):
                        return True
        return False

    def summarise(self, st, f, regs, header, region, phis):
        where = '%s.cc %s loop@%s' % (f.module.name, demangle(f.name), header)
        outer = st.loops
        it = self.fresh(st, 'it')
        outerargs = list(outer)
        base_n = next(self.n)
        memo0 = dict(self.__dict__.get('evmemo', {}))
        uid = base_n
        A_e = simp(st.A)
        A0 = st.ghost['A0']

        def mkfun(name, sort):
            fn = z3.Function('%s!%d' % (name, uid), *[I] * (len(outerargs) + 1), sort)
            IDXDECLS.add(fn.get_id())
            return fn

        # loop variables: phis, then memory cells
        class Var:
            pass
        vars = []
        for ins, v in phis:
            x = Var()
            x.ins, x.entry, x.cell = ins, v, None
            if not z3.is_expr(v):
                raise Unsupported('loop-carried field address in ' + where)
            x.entry = simp(v)
            x.isbool = z3.is_bool(v)
            x.decl = mkfun('phi' + ins.dst.replace('%', '_'), B if x.isbool else I)
            x.closed = None
            x.banned = set()
            x.ty = ins.ty
            x.spine = None
            vars.append(x)
        cells = {}
        mods = {}          # key -> dict(sets, cands)
        Mdecl = {}
        Adecl = mkfun('A', I)
        Astride = [None]
        prevend = {}    # field -> the map at the end of an iteration (loops that carry a result of opaque code over to the next)
        PREVKEYS = ('SCM.type', 'SCM.value')

        def endmaps(backs):
            if not backs or not evt[0] or not any(x.closed is not None and x.kind == 'lag' and not x.isbool for x in vars):
                return {}
            m = {k: backs[0].st.maps[k].array() for k in PREVKEYS if k in mods and mods[k]['sets'] and k in backs[0].st.maps}
            return m if all(k in r.st.maps and r.st.maps[k].array().get_id() == m[k].get_id() for r in backs[1:] for k in m) else {}

        def sameends(a, b):
            return a.keys() == b.keys() and all(a[k].get_id() == b[k].get_id() for k in a)
        Abanned = [False]
        entrymap = {}
        numcands = []
        storecands = []
        bannedc = set()
        evt = [None]
        ev0 = st.ghost.get('ev', ())
        Tlist = [None]     # list of per-path (pc list) for the transition fact

        def X(x, j):
            if x.closed is not None:
                return x.closed(j)
            return x.decl(*outerargs, j)

        def Aat(j):
            if Astride[0] is not None:
                return simp(A_e + Astride[0] * j)
            return Adecl(*outerargs, j)

        def M(key, j):
            return Mdecl[key](*outerargs, j)

        def unmod(key, j, sets=None):
            """predicate: address not modified in the first j iterations"""
            sets = mods[key]['sets'] if sets is None else sets

            def pred(a):
                cs = []
                for s in sets:
                    if s[0] == 'fresh':
                        cs.append(a < A_e)
                    elif s[0] == 'pt':
                        cs.append(a != s[1] if len(s) == 2 else Or(Not(s[2]), a != s[1]))
                    elif s[0] == 'range':
                        e, S = s[1], s[2]
                        if S > 0:
                            cs.append(Or(a < e, a >= e + S * j))
                        else:
                            cs.append(Or(a > e, a <= e + S * j))
                    elif s[0] == 'spine':
                        sp, c, k = s[1], s[2], s[3]
                        iv = sp.inv(a)
                        if k > 0:
                            cs.append(Not(And(a == sp.at(iv), iv >= c, iv < c + j)))
                        else:
                            cs.append(Not(And(a == sp.at(iv), iv <= c, iv > c - j)))
                    elif s[0] == 'any':
                        cs.append(BoolVal(False))
                return And(*cs) if cs else BoolVal(True)
            return pred

        def head():
            H = st.fork()
            H.loops = outer + (it,)
            H.assume(it >= 0)
            H.addidx(it)
            H.addidx(it - 1)
            H.A = Aat(it)
            if Astride[0] is None:
                H.assume(H.A >= A_e)
                H.assume(Adecl(*outerargs, IntVal(0)) == A_e)
            rg = dict(regs)
            for x in vars:
                v = simp(X(x, it))
                if x.cell is None:
                    rg[x.ins.dst] = v
                if x.closed is None:
                    H.assume(X(x, IntVal(0)) == x.entry)
                if x.closed is None and not x.isbool:
                    if x.ty.kind == 'int' and x.ty.a <= 64:
                        h = 1 << (x.ty.a - 1)
                        H.assume(And(v >= -h, v < h))
                    elif x.ty.kind == 'ptr':
                        H.assume(And(v >= -(1 << 62), v < UMAX))
            for key in mods:
                m = mods[key]
                if any(s[0] != 'cellonly' for s in m['sets']) and m['sets']:
                    em = entrymap[key]
                    pred = unmod(key, it)
                    H.maps[key] = MapVal(M(key, it), (), ((pred, lambda ex, s, a, em=em, key=key: ex.readmap(s, key, em, a)),))
                    H.maps[key].hist = getattr(em, 'hist', ())
                else:
                    H.maps[key] = entrymap[key]
            if evt[0]:
                from evalmodel import Rep
                H.ghost['ev'] = ev0 + (Rep(it, it, evt[0]),)
            for (key, aid), x in cells.items():
                self.write(H, key, x.cell[1], simp(X(x, it)))
            for fct in facts_for(it):
                H.fact(fct)
            for c in numcands:
                if c.ok:
                    H.assume(c.fn(it))
            if Tlist[0]:
                g = simple_T(it - 1)
                if g is not None:
                    H.assume(Implies(it >= 1, g))
            return H, rg

        def simple_T(j):
            ds = []
            for pcs in Tlist[0]:
                ok = []
                for c in pcs:
                    if simple_atom(c):
                        ok.append(subst(c, it, j))
                if not ok:
                    return None
                ds.append(And(*ok))
            return Or(*ds)

        def simple_atom(c):
            stack = [c]
            while stack:
                y = stack.pop()
                if z3.is_app(y):
                    k = y.decl().kind()
                    if k == z3.Z3_OP_SELECT:
                        return False
                    if k == z3.Z3_OP_UNINTERPRETED and y.num_args() > len(outerargs) and contains_term(y, it):
                        if y.get_id() != it.get_id():
                            return False
                stack.extend(y.children())
            return contains_term(c, it)

        def contains_term(t, sub):
            return mentions(t, sub)

        def facts_for(t):
            """facts valid after t finished iterations"""
            fs = []
            if Astride[0] is None:
                # allocation only grows
                fs.append(IdxFact(IntVal(0), simp(t + 1), lambda j: And(Adecl(*outerargs, j) >= A_e, Adecl(*outerargs, j) <= Adecl(*outerargs, t)), 'alloc'))
                fs.append(IdxFact(IntVal(0), t, lambda j: Adecl(*outerargs, j) <= Adecl(*outerargs, simp(t - 1)), 'alloc'))
            for key in mods:
                if mods[key]['sets']:
                    em = entrymap[key]
                    earr = em.array()
                    d = Mdecl[key]

                    def frame(base, a, key=key, earr=earr, sets=list(mods[key]['sets'])):
                        jj = base.arg(base.num_args() - 1)
                        return Implies(Or(jj == 0, And(jj >= 0, unmod(key, jj, sets)(a))), Select(base, a) == Select(earr, a))
                    fs.append(MapFact(d, frame, 'loopframe:' + key))
            for key, end in prevend.items():
                def prev(base, a, end=end):
                    if not term_any(a, lambda y: z3.is_app(y[2]) and y[2].decl().name().startswith('ret_')):
                        return BoolVal(True)
                    jj = base.arg(base.num_args() - 1)
                    sub = [(x, y) for x, y in zip(outer, base.children()) if x.get_id() != y.get_id()]
                    e = subst(end, it, simp(jj - 1))
                    if sub:
                        e = z3.substitute(e, sub)
                    return Implies(jj >= 1, Select(base, a) == Select(e, a))
                fs.append(MapFact(Mdecl[key], prev, 'end of the iteration before:' + key))
            for c in storecands:
                if not c.ok:
                    continue

                def fn(j, c=c):
                    g = [] if c.g is None else [subst(c.g, it, j)]
                    eq = Select(M(c.key, t), subst(c.a, it, j)) == subst(c.v, it, j)
                    return Implies(And(*g), eq) if g else eq
                lo, hi = cand_range(c, t)
                fs.append(IdxFact(lo, hi, fn, 'store:' + c.name))
            if Tlist[0] is not None:
                def tf(j):
                    ds = []
                    for pcs in Tlist[0]:
                        ds.append(And(*[subst(c, it, j) for c in pcs]))
                    return Or(*ds) if ds else BoolVal(False)
                fs.append(IdxFact(IntVal(0), t, tf, 'trans'))
            return fs

        def cand_range(c, t):
            if c.mode == 'all':
                return IntVal(0), t
            if c.mode == 'butlast':
                return IntVal(0), t - 1
            if c.mode == 'last':
                return simp(If(t >= 1, t - 1, t)), t
            raise AssertionError

        def ispine(H, v, nk=None):
            for sp in st.spines:
                k = sp.match(v)
                if k is not None and (nk is None or sp.nkey == nk):
                    return sp, k
            return None, None

        def mkwalk(entry, nk='SCM_List.next'):
            """definitional walk over the initial next map"""
            d = self.walks.get((entry.get_id(), nk))
            if d is None:
                d = z3.Function('W!%d' % len(self.walks), I, I)
                IDXDECLS.add(d.get_id())
                self.walks[(entry.get_id(), nk)] = d
                self.walkkeep.append(entry)
            nx = z3.Const(nk + '@0', ARR)
            sp = Spine('walk', d, (), None, nx.decl(), nkey=nk)
            if not any(s.decl.get_id() == d.get_id() for s in st.spines):
                st.spines = st.spines + (sp,)
                st.assume(d(IntVal(0)) == entry)
                st.fact(AppFact(d, lambda j, d=d: And(Implies(j >= 0, d(j + 1) == Select(nx, d(j))), Implies(And(j >= 0, entry >= 0, entry < A0), And(d(j) >= 0, d(j) < A0))), 'walkdef'))
            return sp

        def classify(H, a):
            a = simp(a)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                H1, H2 = H.fork(), H.fork()
                H1.assume(a.arg(0))
                H2.assume(Not(a.arg(0)))
                r1 = classify(H1, a.arg(1))
                r2 = classify(H2, a.arg(2))
                c = a.arg(0)
                if not loopdep(c):
                    # (an address written only under a condition that the loop does not change)
                    given = lambda s, g: (('pt', s[1], simp(And(g, s[2])) if len(s) > 2 else simp(g)) if s[0] == 'pt' else s)
                    r1 = [given(s, c) for s in r1]
                    r2 = [given(s, Not(c)) for s in r2]
                return r1 + [s for s in r2 if not any(same_set(s, q) for q in r1)]
            if not loopdep(a):
                return [('pt', a)]
            d = simp(subst(a, it, it + 1) - a)
            if isint(d) and d.as_long() != 0 and not self.pv.entails(H, a >= A_e):
                e = simp(subst(a, it, IntVal(0)))
                if not loopdep(e):
                    return [('range', e, d.as_long())]
            for sp in H.spines:
                t = sp.match(a)
                if t is not None and sp.inv is not None:
                    d = simp(subst(t, it, it + 1) - t)
                    if isint(d) and abs(d.as_long()) == 1:
                        return [('spine', sp, simp(subst(t, it, IntVal(0))), d.as_long())]
            if self.pv.entails(H, a >= A_e):
                return [('fresh',)]
            r, _ = self.pv.prove(H, a >= A_e, timeout=2000)
            if r == 'proved':
                return [('fresh',)]
            return [('any',)]

        def isint(t):
            return z3.is_int_value(t)

        depids = set()

        def loopdep(t):
            """does t vary with the loop (mentions it or loop functions)"""
            return contains_term(t, it)

        def hascontain_unres(t):
            ids = {x.decl.get_id() for x in vars}
            ids.add(Adecl.get_id())
            return term_any(t, lambda y: y[5] in ids)

        def addnum(name, fn, rnd):
            if name in bannedc or any(c.name == name for c in numcands):
                return False
            g = fn(IntVal(0))
            for x in vars:
                if x.closed is None:
                    g = subst(g, X(x, IntVal(0)), x.entry)
            r0, _ = self.pv.prove(st, g, timeout=1500)
            if r0 == 'proved':
                numcands.append(NumCand(fn, name, rnd))
                return True
            bannedc.add(name)
            return False

        def done_count(e):
            """the one iteration count of a finished loop that e mentions"""
            ns = {}

            def see(y):
                t = y[2]
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('it!'):
                    ns[t.get_id()] = t
                return False
            term_any(e, see)
            if len(ns) != 1:
                return None
            n = list(ns.values())[0]
            return None if any(n.get_id() == o.get_id() for o in outer) else n

        def stride_from(e):
            if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT):
                return None
            for a, n, key, lo in st.ghost.get('strides', ()):
                if key != 'SCM_List.next' or any(n.get_id() == o.get_id() for o in outer):
                    continue
                if os.environ.get('PV_HIST'):
                    print('STRIDE', e, a, n, key, lo, self.pv.prove(st, e == If(n > 0, subst(a, n, IntVal(0)), 0), timeout=5500, idx=[IntVal(0), simp(n - 1)])[0], [self.pv.prove(st, e == subst(a, n, IntVal(0)), extra=[n == q] if q < 2 else [n >= 2], timeout=5500, idx=[IntVal(0), simp(n - 1)])[0] for q in (0, 1, 2)])
                if self.pv.prove(st, e == If(n > 0, subst(a, n, IntVal(0)), 0), timeout=1500, idx=[IntVal(0), simp(n - 1)])[0] == 'proved':
                    return a, n
            return None

        def reads_at(v, cur):
            cid = cur.get_id()
            return term_any(v, lambda y: y[1] == 1 and y[4][1].get_id() == cid)

        def halfwalk(x, cur, vals, H):
            """advances one node in every second iteration"""
            ks = [0 if v.get_id() == cur.get_id() else nest_next(v, cur, 'SCM_List.next@0') for v in vals]
            if None in ks or sorted(ks) != [0, 1]:
                return False
            sp, c = ispine(H, x.entry, 'SCM_List.next')
            if sp is None and self.default_spines:
                sp, c = mkwalk(x.entry), IntVal(0)
            if sp is None:
                return False
            for o in (0, 1):
                if 'half%d' % o not in x.banned:
                    set_closed(x, 'half%d' % o, lambda j, sp=sp, c=c, o=o: simp(sp.at(simp(c + (j + o) / 2))))
                    return True
            return False

        def body():
            self.n = itertools.count(base_n + 1)
            self.evmemo = dict(memo0)
            mark = len(self.obls)
            H, rg = head()
            rs = self.exec(H.fork(), f, rg, header, None, region, first=True)
            return H, rs, mark

        def trace(r, H):
            return list(r.st.ghost.get('ev', ())[len(H.ghost.get('ev', ())):])

        def tmpl_same(a, b):
            return len(a) == len(b) and all(x.same(y) for x, y in zip(a, b))

        def really(backs, H):
            """without the paths that the loop invariants rule out; only looked at when their traces differ"""
            if not backs or all(tmpl_same(trace(r, H), trace(backs[0], H)) and (not trace(r, H) or simp(r.st.A - backs[0].st.A).get_id() == IntVal(0).get_id()) for r in backs[1:]):
                return backs
            return [r for r in backs if self.pv.prove(r.st, BoolVal(False), timeout=3000, idx=[it])[0] != 'proved']

        def val_of(r, x):
            if x.cell is None:
                return simp(self.phi_in(r.st, r.regs, x.ins, r.prev))
            return simp(self.read(r.st, x.cell[0], x.cell[1]))

        # ------------------------------------------------ inference rounds
        for rnd in range(24):
            changed = False
            H, rs, mark = body()
            del self.obls[mark:]
            backs = really([r for r in rs if r.kind == 'back'], H)
            differ = False
            for k, r in enumerate(backs):
                new = list(r.st.ghost.get('ev', ())[len(H.ghost.get('ev', ())):])
                if k == 0:
                    tm = new
                elif len(tm) != len(new) or not all(a.same(b) for a, b in zip(tm, new)):
                    if os.environ.get('PV_HIST'):
                        print('DIFF', [(e.name, e.args, e.res) for e in tm], [(e.name, e.args, e.res) for e in new])
                    differ = True  # (branches may still turn out to be infeasible)
            if backs:
                if any(not hasattr(e, 'args') for e in tm):
                    raise Unsupported('nested call traces: ' + where)
                if evt[0] is None and tm or evt[0] is not None and (len(tm) != len(evt[0]) or not all(a.same(b) for a, b in zip(tm, evt[0]))):
                    evt[0] = tm
                    changed = True
            # modified maps
            oldsets = {k: m['sets'] for k, m in mods.items()}
            if backs:
                for m in mods.values():
                    m['sets'] = []
            for r in backs:
                pcs = r.st.pc[len(H.pc):]
                for key, m in r.st.maps.items():
                    hm = H.maps.get(key)
                    if hm is None:
                        if not m.log and m.base.decl().name() == key + '@0':
                            continue
                        hm = self.map0(key)
                    if m is hm:
                        continue
                    rebased = m.base.get_id() != hm.base.get_id()
                    new = m.log if rebased else log_new(hm, m)
                    hist = getattr(m, 'hist', ())[len(getattr(hm, 'hist', ())):] if rebased else ()
                    if not new and not rebased:
                        continue
                    if key not in mods:
                        mods[key] = {'sets': []}
                        entrymap[key] = self.getmap(st, key)
                        fn = z3.Function('M_%s!%d' % (key, uid), *[I] * (len(outerargs) + 1), ARR)
                        Mdecl[key] = fn
                        changed = True
                    sets = mods[key]['sets']
                    if rebased:
                        if os.environ.get('PV_HIST') and key.startswith('SCM_List'):
                            print('HIST', key, hist, A_e, [self.pv.entails(r.st, hs[1] >= A_e) for hs in hist if len(hs)>1])
                        if not hist:
                            hist = (('any',),)
                        for hs in hist:
                            if hs[0] == 'fresh' and self.pv.entails(r.st, hs[1] >= A_e):
                                ss = [('fresh',)]
                            elif hs[0] == 'rng' and self.pv.entails(r.st, hs[1] >= A_e):
                                ss = [('fresh',)]
                            else:
                                ss = [('any',)]
                            for s in ss:
                                if s not in sets:
                                    sets.append(s)
                    for a, v in new:
                        if (key, a.get_id()) in cells:
                            continue
                        ss = classify(r.st, a)
                        if ss == [('any',)] and rnd < 3 and hascontain_unres(a):
                            changed = True
                            continue
                        for s in ss:
                            if s[0] == 'pt':
                                # loop-invariant address: a memory cell variable
                                if (key, s[1].get_id()) not in cells and ss == [s]:
                                    x = Var()
                                    x.cell = (key, s[1])
                                    x.ins = None
                                    x.entry = self.read(st, key, s[1])
                                    x.isbool = False
                                    x.decl = mkfun('cell_' + key, I)
                                    x.closed = None
                                    x.banned = set()
                                    x.spine = None
                                    ft = self.fieldtypes.get(key)
                                    x.ty = ft if ft is not None else Ty('int', {'mem1': 8, 'mem4': 32, 'mem2': 16}.get(key, 64))
                                    cells[(key, s[1].get_id())] = x
                                    vars.append(x)
                                    changed = True
                                elif ss != [s] and not any(same_set(s, q) for q in sets):
                                    sets.append(s)
                                continue
                            if not any(same_set(s, q) for q in sets):
                                sets.append(s)
            for k, m in mods.items():
                o = oldsets.get(k, [])
                if len(o) != len(m['sets']) or not all(any(same_set(a, b) for b in o) for a in m['sets']):
                    changed = True
            # allocation stride
            ds = set()
            for r in backs:
                d = simp(r.st.A - H.A)
                ds.add(d.as_long() if isint(d) else None)
            if Astride[0] is None and not Abanned[0] and len(ds) == 1 and None not in ds:
                Astride[0] = ds.pop()
                changed = True
            elif Astride[0] is not None and backs and ds != {Astride[0]}:
                Astride[0] = None
                Abanned[0] = True
                changed = True
            # closed forms
            for x in vars:
                vals = []
                for r in backs:
                    v = val_of(r, x)
                    if not any(v.get_id() == w.get_id() for w, _ in vals):
                        vals.append((v, r))
                if not vals:
                    continue
                if x.closed is not None:
                    want = simp(x.closed(it + 1))
                    good = True
                    for v, r in vals:
                        if v.get_id() != want.get_id() and not self.pv.entails(r.st, v == want):
                            rr, _ = self.pv.prove(r.st, v == want, timeout=3000)
                            if rr == 'failed' and evt[0]:
                                rr, _ = self.pv.prove(r.st, v == want, timeout=5000, rounds=5)
                            if rr != 'proved':
                                good = False
                                if os.environ.get('PV_HIST'):
                                    print('CLOSED', rr, x.ins.dst if x.ins else x.cell, v, want, {k: [q[0] for q in m['sets']] for k, m in mods.items() if k.startswith('SCM_List')})
                    if not good:
                        x.fails = getattr(x, 'fails', 0) + 1
                        if x.fails >= 3:
                            x.banned.add(x.kind)
                            x.closed = None
                            x.fails = 0
                        changed = True
                    continue
                cur = simp(X(x, it))
                if len(vals) > 1:
                    # equal on all paths?
                    v0, r0 = vals[0]
                    if not all(self.pv.entails(r.st, v == v0) for v, r in vals[1:]):
                        ks = [None] if x.isbool or 'walk' in x.banned else [nest_next(v, cur, 'SCM_List.next@0') if v.get_id() != cur.get_id() else 0 for v, _ in vals]
                        if None in ks and 1 in ks and set(ks) == {None, 1}:
                            vals = [vals[ks.index(1)]]  # (a guess for the others, checked like every closed form)
                        elif not x.isbool:
                            changed |= halfwalk(x, cur, [v for v, _ in vals], H)
                        elif 'alt' not in x.banned and all(self.pv.entails(r.st, v == Not(cur)) for v, r in vals):
                            set_closed(x, 'alt', lambda j, e=x.entry: simp(e == (j % 2 == 0)))
                            changed = True
                        if len(vals) > 1:
                            continue
                v, r = vals[0]
                if x.isbool:
                    if v.get_id() == cur.get_id():
                        set_closed(x, 'const', lambda j, e=x.entry: e)
                        changed = True
                    elif 'alt' not in x.banned and self.pv.entails(r.st, v == Not(cur)):
                        set_closed(x, 'alt', lambda j, e=x.entry: simp(e == (j % 2 == 0)))
                        changed = True
                    elif not hascontain_unres(v) and 'lag' not in x.banned:
                        set_closed(x, 'lag', lambda j, e=x.entry, v=v: simp(If(j == 0, e, subst(v, it, j - 1))))
                        changed = True
                    continue
                if isint(x.entry) and 'alt' not in x.banned:
                    e1 = simp(subst(v, cur, x.entry))
                    if isint(e1) and e1.get_id() != x.entry.get_id() and simp(subst(v, cur, e1)).get_id() == x.entry.get_id():
                        set_closed(x, 'alt', lambda j, e=x.entry, e1=e1: simp(If(j % 2 == 0, e, e1)))
                        changed = True
                        continue
                d = simp(v - cur)
                if isint(d) and 'affine' not in x.banned:
                    k = d.as_long()
                    set_closed(x, 'affine', lambda j, e=x.entry, k=k: simp(e + k * j))
                    if k < 0:
                        addnum(('aff>=0', x.decl.get_id()), lambda j, e=x.entry, k=k: e + k * j >= 0, rnd)
                    changed = True
                    continue
                uw = self.unwrapped.get(v.get_id())
                if uw is not None and 'affine' not in x.banned:
                    d = simp(uw[1] - cur)
                    if isint(d):
                        k = d.as_long()
                        set_closed(x, 'affine', lambda j, e=x.entry, k=k: simp(e + k * j))
                        if k < 0:
                            addnum(('aff>=0', x.decl.get_id()), lambda j, e=x.entry, k=k: e + k * j >= 0, rnd)
                        changed = True
                        continue
                if uw is not None and 'affine' in x.banned and 'affwrap' not in x.banned:
                    d = simp(uw[1] - cur)
                    if isint(d):
                        k, W = d.as_long(), 1 << uw[2]
                        set_closed(x, 'affwrap', lambda j, e=x.entry, k=k, W=W: simp((e + k * j + W // 2) % W - W // 2))
                        changed = True
                        continue
                if not loopdep(d) and 'affine' not in x.banned and not hascontain_unres(d):
                    set_closed(x, 'affine', lambda j, e=x.entry, d=d: simp(e + d * j))
                    changed = True
                    continue
                sf = stride_from(x.entry) if not x.isbool and x.ty.kind == 'ptr' and 'stride' not in x.banned and reads_at(v, cur) else None
                if sf is not None:
                    # walks over the cells that a finished loop has linked, the first one first
                    a, n = sf
                    set_closed(x, 'stride', lambda j, a=a, n=n: simp(If(j < n, subst(a, n, j), 0)))
                    addnum(('stride<=', x.decl.get_id(), n.get_id()), lambda j, n=n: j <= n, rnd)
                    changed = True
                    continue
                n = done_count(x.entry) if not x.isbool and x.ty.kind == 'ptr' and 'rewind' not in x.banned else None
                if n is not None and reads_at(v, cur):
                    # walks back over the objects that a finished loop has linked, the last one first
                    set_closed(x, 'rewind', lambda j, e=x.entry, n=n: simp(subst(e, n, n - j)))
                    addnum(('rewind<=', x.decl.get_id(), n.get_id()), lambda j, n=n: j <= n, rnd)
                    changed = True
                    continue
                for nk in NEXTKEYS:
                    k = nest_next(v, cur, nk + '@0')
                    if k:
                        break
                if k and 'walk' not in x.banned:
                    sp, c = ispine(H, x.entry, nk)
                    if sp is None and self.default_spines:
                        sp = mkwalk(x.entry, nk)
                        c = IntVal(0)
                        if x.entry.get_id() != sp.at(IntVal(0)).get_id():
                            pass
                    if sp is not None:
                        set_closed(x, 'walk', lambda j, sp=sp, c=c, k=k: simp(sp.at(simp(c + k * j))))
                        if sp.hi is not None:
                            addnum(('walk<=', sp.name, c.get_id(), k), lambda j, sp=sp, c=c, k=k: c + k * j <= sp.hi, rnd)
                            addnum(('walk<', sp.name, c.get_id(), k), lambda j, sp=sp, c=c, k=k: c + k * j < sp.hi, rnd)
                        changed = True
                        continue
                if not hascontain_unres(v) and 'lag' not in x.banned:
                    v0 = simp(subst(v, it, IntVal(-1)))
                    if v0.get_id() == x.entry.get_id():
                        set_closed(x, 'lag', lambda j, v=v: simp(subst(v, it, simp(j - 1))))
                    else:
                        set_closed(x, 'lag', lambda j, e=x.entry, v=v: simp(If(simp(j) == 0, e, subst(v, it, simp(j - 1)))))
                    changed = True
                    continue
            # transition relation
            newT = []
            for r in backs:
                pcs = list(r.st.pc[len(H.pc):])
                for x in vars:
                    if x.closed is None:
                        pcs.append(X(x, it + 1) == val_of(r, x))
                if Astride[0] is None:
                    pcs.append(Adecl(*outerargs, it + 1) == r.st.A)
                newT.append(pcs)
            sig = tuple(tuple(c.get_id() for c in pcs) for pcs in newT)
            if Tlist[0] is None or sig != tuple(tuple(c.get_id() for c in pcs) for pcs in Tlist[0]):
                if rnd < 10:
                    changed = True
                Tlist[0] = newT
            # numeric candidates
            if not changed or rnd == 3:
                self.loopvars = vars
                for g in self.loopcand:
                    for x in vars:
                        if x.closed is None:
                            for nm, fn in g(self, x, X, it, st):
                                changed |= addnum(('spec', nm, x.decl.get_id()), fn, rnd)
                for x in vars:
                    if x.isbool:
                        continue
                    if x.closed is None:
                        for nm, fn in (('>=entry', lambda j, x=x: X(x, j) >= x.entry), ('<=entry', lambda j, x=x: X(x, j) <= x.entry),
                                       ('>=0', lambda j, x=x: X(x, j) >= 0), ('!=0', lambda j, x=x: X(x, j) != 0),
                                       ('<=entry+j', lambda j, x=x: X(x, j) <= x.entry + j), ('fresh', lambda j, x=x: X(x, j) >= A_e)):
                            changed |= addnum((nm, x.decl.get_id()), fn, rnd)
            # store candidates
            if rnd >= 1:
                esc = set()
                for r in backs:
                    for x in vars:
                        esc.add(val_of(r, x).get_id())
                    for key in mods:
                        m = r.st.maps.get(key)
                        if m is not None:
                            for a, v in m.log:
                                esc.add(v.get_id())
                for r in backs:
                    pcs = r.st.pc[len(H.pc):]
                    guard = None
                    if len(backs) > 1:
                        guard = And(*pcs)
                    for key in mods:
                        if not mods[key]['sets']:
                            continue
                        hm = H.maps.get(key)
                        m = r.st.maps.get(key)
                        if m is None or hm is None:
                            continue
                        rebased = m.base.get_id() != hm.base.get_id()
                        if rebased and any(s[0] not in ('fresh', 'pt') for s in mods[key]['sets']):
                            continue
                        lastw = {}
                        for a, v in m.log if rebased else log_new(hm, m):
                            if (key, a.get_id()) in cells:
                                continue
                            if key.startswith('SCM.') and a.get_id() not in esc and self.pv.entails(r.st, a >= A_e):
                                continue
                            lastw[a.get_id()] = (a, v)
                        for a, v in lastw.values():
                            for mode in ('all', 'butlast', 'last'):
                                if mode != 'all' and Cand(key, a, v, guard, 'all', '').sig() not in bannedc:
                                    continue
                                c = Cand(key, a, v, guard, mode, '%s %s' % (key, mode))
                                if c.sig() in bannedc or any(q.sig() == c.sig() for q in storecands):
                                    continue
                                storecands.append(c)
                                changed = True
            # inductive filtering
            for c in numcands:
                if c.ok and c.born < rnd:
                    for r in backs:
                        g = simp(c.fn(it + 1))
                        # substitute transition for unresolved variables
                        rr, _ = self.pv.prove(r.st, g, extra=[X(x, it + 1) == val_of(r, x) for x in vars if x.closed is None], idx=[it, it + 1], timeout=2500)
                        if rr != 'proved':
                            c.fails += 1
                            if c.fails >= 3 or not changed:
                                c.ok = False
                                bannedc.add(c.name)
                            changed = True
                            break
            if not changed or rnd >= 4:
                for c in storecands:
                    if not c.ok:
                        continue
                    for r in backs:
                        m = r.st.maps.get(c.key)
                        j = z3.Const('jsk!%d' % uid, I)
                        lo, hi = cand_range(c, simp(it + 1))
                        g = [lo <= j, j < hi]
                        if c.g is not None:
                            g.append(subst(c.g, it, j))
                        goal = Select(m.array(), subst(c.a, it, j)) == subst(c.v, it, j)
                        rr, _ = self.pv.prove(r.st, goal, extra=g, idx=[j, it], timeout=2500)
                        if os.environ.get('PV_LOOP') == '2':
                            print('   cand', c.name, c.a, c.v, rr)
                        if rr != 'proved':
                            c.ok = False
                            bannedc.add(c.sig())
                            changed = True
                            break
                storecands[:] = [c for c in storecands if c.ok]
            numcands[:] = [c for c in numcands if c.ok]
            if os.environ.get('PV_LOOP'):
                print('[loop %s] round %d changed=%s stride=%s vars=%s mods=%s cands=%d num=%s paths=%d' % (
                    where, rnd, changed, Astride[0], [(x.ins.dst if x.ins else x.cell, x.kind if x.closed else None, X(x, it)) for x in vars],
                    {k: [s[0] for s in m['sets']] for k, m in mods.items()}, len(storecands), [c.name for c in numcands], len(backs)))
            ends = endmaps(backs)
            if not changed and not sameends(ends, prevend):
                prevend.clear()
                prevend.update(ends)
                changed = True
            if not changed and differ:
                raise Unsupported('call trace differs between iterations: ' + where)
            if not changed:
                break
        else:
            raise Unsupported('loop invariant inference did not converge: ' + where)
        # ------------------------------------------------ final pass with obligations
        H, rs, mark = body()
        backs = really([r for r in rs if r.kind == 'back'], H)
        out = []
        if not sameends(endmaps(backs), prevend):
            raise Unsupported('end of iteration: ' + where)
        # closed forms / frames are re-verified on these very paths
        if os.environ.get('PV_CONS'):
            for k in (0, 1, 2, 3):
                print('CONS head', k, self.pv.prove(H, BoolVal(False), extra=[it == k], idx=[it, it + 1, IntVal(0), IntVal(1)]), [self.pv.prove(r.st, BoolVal(False), extra=[it == k], idx=[it, it + 1, IntVal(0), IntVal(1)])[0] for r in backs])
        for r in backs:
            new = list(r.st.ghost.get('ev', ())[len(H.ghost.get('ev', ())):])
            if len(new) != len(evt[0] or ()) or not all(a.same(b) for a, b in zip(new, evt[0] or ())):
                raise Unsupported('call trace not uniform: ' + where)
            for x in vars:
                if x.closed is not None:
                    v, want = val_of(r, x), simp(x.closed(simp(it + 1)))
                    if v.get_id() != want.get_id() and not self.pv.entails(r.st, v == want):
                        rr, _ = self.pv.prove(r.st, v == want, timeout=4000)
                        if rr == 'failed' and evt[0]:
                            rr, _ = self.pv.prove(r.st, v == want, timeout=8000, rounds=5)
                        if rr != 'proved':
                            if os.environ.get('PV_HIST'):
                                print('CF', x.ins.dst if x.ins else x.cell, x.kind, v, want)
                            raise Unsupported('closed form not inductive: ' + where)
            for key, m in r.st.maps.items():
                if key in mods:
                    continue
                hm = H.maps.get(key) or self.map0(key)
                if m is not hm and (m.base.get_id() != hm.base.get_id() or m.log != hm.log):
                    raise Unsupported('unframed modification of %s: %s' % (key, where))
            d = simp(r.st.A - H.A)
            if Astride[0] is not None and not (isint(d) and d.as_long() == Astride[0]):
                raise Unsupported('allocation stride: ' + where)
        self.loopstats[where] = {'closed': {str(x.ins.dst if x.ins else x.cell[0]): x.kind for x in vars if x.closed}, 'open': len([x for x in vars if x.closed is None]),
                                 'frames': {k: [s[0] for s in m['sets']] for k, m in mods.items()}, 'store_invariants': len(storecands), 'numeric_invariants': len(numcands)}
        strides = []
        for c in storecands:
            if c.key == 'SCM_List.data' or c.key == 'SCM_List.next':
                strides.append((c, it, dict(M=Mdecl[c.key])))
        for r in rs:
            if r.kind == 'back':
                continue
            r.st.loops = outer
            for key in mods:
                m = r.st.maps.get(key)
                if m is not None and mods[key]['sets']:
                    h = getattr(entrymap[key], 'hist', ())
                    for s in mods[key]['sets']:
                        h = h + ((('fresh', A_e),) if s[0] == 'fresh' else (('any',),))
                    m2 = MapVal(m.base, m.log, m.frames)
                    m2.hist = h
                    r.st.maps[key] = m2
            r.st.ghost['strides'] = r.st.ghost.get('strides', ()) + tuple(
                (c.a, it, c.key, c.mode) for c in storecands if c.key in ('SCM_List.data', 'SCM_List.next'))
            if outer:
                pass
            out.append(r)
        return out

    def same_set(a, b):
        if a[0] != b[0] or len(a) != len(b):
            return False
        for x, y in zip(a[1:], b[1:]):
            if z3.is_expr(x) and z3.is_expr(y):
                if x.get_id() != y.get_id():
                    return False
            elif x is not y and x != y:
                return False
        return True

    def set_closed(x, kind, fn):
        x.kind = kind
        x.closed = fn

    Exec.intable = intable
    Exec.loop = loop
    Exec.summarise = summarise
    Exec.force_unroll = False
    Exec.walks = {}
    Exec.walkkeep = []


from symex_types import Spine, UMAX
