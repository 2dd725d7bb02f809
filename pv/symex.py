"""Symbolic executor + loop summariser + builtins on top of engine.py."""
from engine import *
import struct as _struct

FADD, FSUB, FMUL, FDIV, FREM = [z3.Function(n, I, I, I) for n in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')]
FNEG = z3.Function('fneg', I, I)
I2F = z3.Function('i2f', I, I)
F2I = z3.Function('f2i', I, I)
F2I32 = z3.Function('f2i32', I, I)
FLT = z3.Function('flt', I, I, B)
FLE = z3.Function('fle', I, I, B)
FEQ = z3.Function('feq', I, I, B)
FNAN = z3.Function('fnan', I, B)
TDIV = z3.Function('tdiv', I, I, I)
TREM = z3.Function('trem', I, I, I)
UDIV = z3.Function('udiv64', I, I, I)
UREM = z3.Function('urem64', I, I, I)
BAND = z3.Function('bvand', I, I, I)
BOR = z3.Function('bvor', I, I, I)
BXOR = z3.Function('bvxor', I, I, I)
BSHL = z3.Function('bvshl', I, I, I)
BLSHR = z3.Function('bvlshr', I, I, I)
BASHR = z3.Function('bvashr', I, I, I)
from symex_types import Spine, UMAX


def i2f(st, a):
    """(double)a; the sign of the result is the sign of a (IEEE 754)"""
    r = I2F(a)
    z = IntVal(0)
    st.assume(And(FLT(r, z) == (a < 0), FLT(z, r) == (a > 0), feq(r, z) == (a == 0), FLE(r, z) == (a <= 0), FLE(z, r) == (a >= 0)))
    return r


def feq(a, b):
    a, b = simp(a), simp(b)
    return FEQ(a, b) if a.get_id() <= b.get_id() else FEQ(b, a)


def farith(st, op, a, b):
    a, b = simp(a), simp(b)
    if op in ('fadd', 'fmul') and a.get_id() > b.get_id():
        a, b = b, a         # IEEE addition and multiplication commute
    r = {'fadd': FADD, 'fsub': FSUB, 'fmul': FMUL, 'fdiv': FDIV, 'frem': FREM}[op](a, b)
    if op == 'fdiv' and a.decl().name() == 'i2f' and b.decl().name() == 'i2f':
        n, d = a.arg(0), b.arg(0)
        z = IntVal(0)
        st.assume(Implies(d > 0, And(FLT(r, z) == (n < 0), FLT(z, r) == (n > 0), feq(r, z) == (n == 0), FLE(r, z) == (n <= 0), FLE(z, r) == (n >= 0))))
    return r


def dbits(d):
    return _struct.unpack('<q', _struct.pack('<d', d))[0]


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def isnum(t):
    return z3.is_int_value(t)


def num(t):
    return t.as_long()


def b2i(b):
    if is_true(b):
        return IntVal(1)
    if is_false(b):
        return IntVal(0)
    return If(b, IntVal(1), IntVal(0))


def tdiv(x, y):
    if isnum(y) and num(y) != 0:
        if isnum(x):
            q = abs(num(x)) // abs(num(y))
            return IntVal(q if (num(x) >= 0) == (num(y) > 0) else -q)
        return If(x >= 0, x / y, -((-x) / y))
    return TDIV(x, y)


def trem(x, y):
    if isnum(y) and num(y) != 0:
        ay = IntVal(abs(num(y)))
        if isnum(x):
            r = abs(num(x)) % abs(num(y))
            return IntVal(r if num(x) >= 0 else -r)
        return If(x >= 0, x % ay, -((-x) % ay))
    return TREM(x, y)


def contains(t, ids):
    """does term t contain any subterm whose decl/term id is in ids"""
    return term_any(t, lambda y: y[0] in ids or y[5] in ids)


class Res:
    __slots__ = ('kind', 'st', 'val', 'prev', 'target', 'regs', 'info', 'dbg', 'first')

    def __init__(self, kind, st, val=None, prev=None, target=None, regs=None, info='', dbg=None):
        self.kind, self.st, self.val, self.prev, self.target, self.regs, self.info, self.dbg = kind, st, val, prev, target, regs, info, dbg


class Exec:
    def __init__(self, prog, prover=None):
        self.prog = prog
        self.pv = prover or Prover()
        self.obls = []
        self.record = True
        self.n = itertools.count()
        self.builtins = {}
        self.contracts = {}
        self.stack = []
        self.unroll = None       # bounded mode: max iterations
        self.maxconc = 10
        self.wf = {}
        self.touched = set()     # functions executed
        self.assumed = set()     # trusted contracts used
        self.loopstats = {}
        self.events = []
        self.loopcand = []       # extra invariant candidate generators
        self.maxpaths = 4000
        self.notes = []
        self.truncated = False
        self.deadline = None
        self.default_spines = True
        self.alias = {}
        self.unwrapped = {}
        self.tailheads = {}
        install_builtins(self)

    # ------------------------------------------------------------------ misc
    def fresh(self, st, name, sort=I):
        nm = '%s!%d' % (name, next(self.n))
        if st.loops:
            f = z3.Function(nm, *[I] * len(st.loops), sort)
            return f(*st.loops)
        return z3.Const(nm, sort)

    def where(self, f, inst):
        ln = f.module.lines.get(inst.dbg) if inst is not None and inst.dbg else None
        return '%s.cc:%s %s' % (f.module.name, ln, demangle(f.name))

    def obl(self, st, goal, name, kind, where=''):
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        g = simp(goal)
        if is_true(g):
            if self.record:
                self.obls.append(Obl(name, st, g, kind, where))
                self.obls[-1].result = 'proved'
            return
        if self.record:
            self.obls.append(Obl(name, st.fork(), g, kind, where))
        # once checked, later code may rely on it
        st.assume(g)

    # ------------------------------------------------------------------ heap
    def map0(self, key):
        return MapVal(z3.Const(key + '@0', ARR))

    def getmap(self, st, key):
        m = st.maps.get(key)
        if m is None:
            if st.ghost.get('gen') and key.startswith(self.nohavoc):
                raise Unsupported('field %s read after a call into arbitrary code' % key)
            m = self.map0(key)
            st.maps[key] = m
        return m

    # structures no specification talks about: not tracked across calls into arbitrary code
    nohavoc = ('Parser.', 'ParseStackFrame.', 'PrintContext.', 'scm_print_state.', 'scm_t_', 'HeapSegment.', 'GCBlock.', 'RootRegistration.', 'UpdatePair.',
               'jmp_buf_and_retval.', 'lazy_catch_data.', 'catch_info.', 'SCM_SourceLocation', '_', 'lit', 'std', 'SCM_SmobDescriptor.', 'EvalStackFrame.')

    def same(self, st, a, b):
        """True / False / None"""
        if a.get_id() == b.get_id():
            return True
        d = simp(a - b)
        if isnum(d):
            return num(d) == 0
        # region knowledge: deep
        if not self.pv.feasible(st, (a == b,)):
            return False
        if not self.pv.feasible(st, (a != b,)):
            return True
        return None

    def read(self, st, key, addr):
        addr = simp(addr)
        return simp(self._read(st, key, self.getmap(st, key), addr, len(self.getmap(st, key).log)))

    def readmap(self, st, key, m, addr):
        return self._read(st, key, m, simp(addr), len(m.log))

    def _read(self, st, key, m, addr, n):
        for i in range(n - 1, -1, -1):
            a, v = m.log[i]
            s = self.same(st, a, addr)
            if s is True:
                return v
            if s is None:
                return If(a == addr, v, self._read(st, key, m, addr, i))
        for pred, get in m.frames:
            if self.pv.entails(st, pred(addr)):
                return get(self, st, addr)
        return self.readbase(st, key, m.base, addr)

    def readbase(self, st, key, base, addr):
        # constant data
        if base.decl().name() == key + '@0':
            if isnum(addr):
                c = self.constdata(key, num(addr))
                if c is not None:
                    return IntVal(c)
        if st.spines and base.decl().name() == key + '@0':
            for sp in st.spines:
                if key != sp.nkey and key not in sp.fields:
                    continue
                t = sp.match(addr)
                if t is None:
                    continue
                if sp.hi is not None and not self.pv.entails(st, And(t >= 0, t < sp.hi)):
                    continue
                if sp.hi is None and not self.pv.entails(st, t >= 0):
                    continue
                if key == sp.nkey:
                    t1 = simp(t + 1)
                    w = simp(sp.at(t1))
                    if sp.hi is not None:
                        if sp.last is None:
                            st.assume(Implies(t1 == sp.hi, w == 0))
                        st.assume(Implies(And(t1 < sp.hi), And(w > 0, w < st.ghost['A0'])))
                    else:
                        st.assume(And(w >= 0, w < st.ghost['A0']))
                    return w
                d = simp(sp.fields[key](t))
                if key == 'SCM_List.data':
                    self.wfptr(st, d, True)
                return d
        v = simp(Select(base, addr))
        self.wfval(st, key, base, addr, v)
        al = self.alias.get(v.get_id())
        if al is not None:
            return al[1]
        return v

    def wfptr(self, st, v, nonnull=False):
        st.assume(And(v > 0 if nonnull else v >= 0, v < st.ghost['A0']))

    def wfval(self, st, key, base, addr, v):
        if ('wf', v.get_id()) in st.ghost:
            return
        st.ghost[('wf', v.get_id())] = v
        h = self.wf.get(key)
        initial = base.decl().name().startswith(key + '@')
        if h is not None:
            h(self, st, initial, base, addr, v)
            return
        if key == 'mem1':
            st.assume(And(v >= -128, v <= 127))
        elif key == 'mem4':
            st.assume(And(v >= -(1 << 31), v < (1 << 31)))
        elif key == 'mem2':
            st.assume(And(v >= -(1 << 15), v < (1 << 15)))
        elif key == 'mem8':
            st.assume(And(v >= -(1 << 63), v < (1 << 63)))
        else:
            ft = self.fieldtypes.get(key)
            if ft is not None:
                if ft.kind == 'int':
                    if ft.a == 8:
                        # bool or char field
                        st.assume(And(v >= 0, v <= 1) if key in self.boolfields else And(v >= -128, v <= 127))
                    else:
                        st.assume(And(v >= -(1 << (ft.a - 1)), v < (1 << (ft.a - 1))))
                elif ft.kind == 'ptr':
                    if initial:
                        from contract import genA
                        A0 = genA(st, base)
                        st.assume(And(v >= 0, v < A0) if key not in self.codeptrs else v < A0)
                    else:
                        st.assume(And(v >= -(1 << 62), v < UMAX))
                elif ft.kind == 'double':
                    st.assume(And(v >= -(1 << 63), v < (1 << 63)))

    fieldtypes = {}
    boolfields = {'SCM_List.is_dotted', 'SCM_Promise.is_forced', 'SCM_Port.is_input', 'SCM_Port.is_closed'}
    codeptrs = {'SCM_Function.func_ptr'}

    def constdata(self, key, a):
        for base, name in self.prog.gname.items():
            if base <= a < base + (1 << 20):
                g = self.prog.gconst.get(name)
                if g is None:
                    return None
                ty, init, const = g
                if not const or init is None:
                    return None
                off = a - base
                if key == 'mem1':
                    if init.kind == 'str':
                        b = cstr(init)
                        return sx(b[off], 8) if off < len(b) else None
                    if init.kind == 'zero':
                        return 0
                if key == 'mem8' and init.kind == 'agg' and off % 8 == 0 and off // 8 < len(init.v):
                    e = init.v[off // 8]
                    if e.kind == 'int':
                        return e.v
                    if e.kind == 'global':
                        return self.prog.global_addr(self.cur.module, e.v)
                    if e.kind == 'null':
                        return 0
                if key == 'mem4' and init.kind == 'agg' and off % 4 == 0 and off // 4 < len(init.v) and init.v[off // 4].kind == 'int':
                    return init.v[off // 4].v
                if init.kind == 'int' and off == 0:
                    return init.v
                return None
        return None

    def write(self, st, key, addr, v):
        m = self.getmap(st, key)
        addr = simp(addr)
        if z3.is_bool(v):
            v = b2i(v)
        v = simp(v)
        if m.log and m.log[-1][0].get_id() == addr.get_id():
            st.maps[key] = m2 = MapVal(m.base, m.log[:-1] + ((addr, v),), m.frames)
            m2.hist = m.hist
        else:
            st.maps[key] = m.store(addr, v)

    def newbase(self, st, key):
        nm = '%s#%d' % (key, next(self.n))
        if st.loops:
            return z3.Function(nm, *[I] * len(st.loops), ARR)(*st.loops)
        return z3.Const(nm, ARR)

    def range_update(self, st, key, lo, hi, valfn):
        """memory [lo,hi) becomes valfn(addr); everything else unchanged"""
        old = self.getmap(st, key)
        nb = self.newbase(st, key)
        fr = ((lambda a: Or(a < lo, a >= hi), lambda ex, s, a: ex.readmap(s, key, old, a)),
              (lambda a: And(a >= lo, a < hi), lambda ex, s, a: valfn(s, a)))
        oldarr = old.array()
        st.maps[key] = MapVal(nb, (), fr)
        args = nb.children()

        def fact(base, a, lo=lo, hi=hi, oldarr=oldarr):
            sub = [(x, y) for x, y in zip(args, base.children()) if x.get_id() != y.get_id()]
            f = And(Implies(Or(a < lo, a >= hi), Select(base, a) == (z3.substitute(oldarr, sub) if sub else oldarr)[a]))
            return z3.substitute(f, sub) if sub else f
        st.fact(MapFact(nb.decl(), fact, 'frame:' + key))
        try:
            sfn = valfn.pure
        except AttributeError:
            sfn = None
        if sfn is not None:
            st.fact(MapFact(nb.decl(), lambda base, a: Implies(And(a >= lo, a < hi), Select(base, a) == sfn(a)), 'range:' + key))

    def alloc(self, st, size, extent=True):
        """fresh block of `size` bytes (z3 Int); returns address"""
        a = simp(st.A)
        size = simp(size) if not isinstance(size, int) else IntVal(size)
        if isnum(size):
            st.A = simp(a + ((num(size) + 15) // 16 * 16 + 16))
        else:
            st.A = simp(a + size + 16)
        if extent:
            st.extents = st.extents + ((a, size),)
        return a

    def ptrval(self, v):
        if isinstance(v, FieldPtr):
            raise Unsupported('field address escapes: %s' % v.key)
        return v

    def checkptr(self, st, addr, what, where):
        """non-null, valid object pointer"""
        self.obl(st, addr != 0, 'pointer is non-null: ' + what, 'null', where)

    def bounds(self, st, addr, size, where, key):
        """raw access: address lies in a known extent"""
        if isnum(addr):
            return
        goals = []
        for b, n in reversed(st.extents):
            g = And(addr >= b, addr + size <= b + n)
            if self.pv.entails(st, g):
                if self.record:
                    o = Obl('access in bounds', st, BoolVal(True), 'bounds', where)
                    o.result = 'proved'
                    self.obls.append(o)
                return
            goals.append(g)
        if goals:
            self.obl(st, Or(*goals), 'access in bounds', 'bounds', where)
        else:
            self.obl(st, BoolVal(False), 'access in bounds (no known buffer)', 'bounds', where)

    def bounds_if(self, st, addr, size, where):
        if self.pv.entails(st, size <= 0):
            return
        s = st.fork()
        s.assume(size > 0)
        self.bounds(s, addr, size, where, 'mem1')

    def cread(self, key, arr, addr):
        """select on a concrete-global address folds to the constant"""
        if isnum(addr):
            c = self.constdata(key, num(addr))
            if c is not None:
                return IntVal(c)
        return Select(arr, addr)

    # -------------------------------------------------------------- operands
    def operand(self, st, fr, op, ty=None):
        k = op.kind
        if k == 'reg':
            return fr[op.v]
        if k == 'int':
            if op.ty is not None and op.ty.kind == 'int' and op.ty.a == 1:
                return BoolVal(bool(op.v))
            return IntVal(op.v)
        if k == 'null':
            return IntVal(0)
        if k == 'global':
            return IntVal(self.gaddr(op.v))
        if k == 'undef':
            if op.ty is not None and op.ty.kind == 'int' and op.ty.a == 1:
                return self.fresh(st, 'undef', B)
            return self.fresh(st, 'undef')
        if k == 'fp':
            if isinstance(op.v, float):
                return IntVal(dbits(op.v))
            return IntVal(sx(int(op.v, 16), 64))
        if k == 'zero':
            return IntVal(0)
        if k == 'cgep':
            bt, ops = op.v
            return self.gep(st, fr, bt, ops)
        if k == 'ccast':
            return self.operand(st, fr, op.v[1])
        raise Unsupported('operand ' + k)

    def gaddr(self, name):
        return self.prog.global_addr(self.cur.module, name)

    def gep(self, st, fr, bt, ops):
        base = self.operand(st, fr, ops[0])
        if isinstance(base, FieldPtr):
            if len(ops) == 2 and ops[1].kind == 'int' and ops[1].v == 0:
                return base
            raise Unsupported('gep on field address')
        ix = [self.operand(st, fr, o) for o in ops[1:]]
        addr = base
        if not (isnum(ix[0]) and num(ix[0]) == 0):
            addr = simp(addr + ix[0] * self.prog.layout(bt)[0])
        ty = bt
        for i in ix[1:]:
            if ty.kind == 'struct' or ty.kind == 'lit':
                if ty.kind == 'struct':
                    sname, els = self.prog.struct_els(ty.a)
                else:
                    sname, els = 'lit', list(ty.a)
                k = num(simp(i))
                off = self.prog.offset(els, k)
                et = els[k]
                if et.kind in ('struct', 'array', 'lit'):
                    addr = simp(addr + off)
                    ty = et
                else:
                    if sname.startswith('union.') or 'union' in sname:
                        raise Unsupported('union ' + sname)
                    return FieldPtr(addr, self.prog.fieldname(sname, k), et, off)
            elif ty.kind == 'array':
                addr = simp(addr + i * self.prog.layout(ty.b)[0])
                ty = ty.b
            else:
                raise Unsupported('gep into ' + repr(ty))
        return addr

    def memkey(self, ty):
        s = self.prog.layout(ty)[0]
        return 'mem%d' % s, s

    # ---------------------------------------------------------------- running
    def run(self, st, f, args):
        """execute function f; list of Res (ret/err/abort)"""
        if len(self.stack) > 40:
            raise Unsupported('call depth')
        self.touched.add((f.module.name, f.name))
        saved = getattr(self, 'cur', None)
        self.stack.append(f.name)
        try:
            fr = {}
            for (p, ty), a in zip(f.params, args):
                fr[p] = a
            res = self.exec(st, f, fr, f.entry, None, None)
        finally:
            self.stack.pop()
            self.cur = saved
        return res

    def exec(self, st, f, regs, block, prev, region, first=False):
        out = []
        work = [(st, regs, block, prev, 0, first)]
        loops = f.loops()
        npaths = 0
        while work:
            st, regs, block, prev, idx, first = work.pop()
            self.cur = f
            npaths += 1
            if npaths > self.maxpaths:
                raise Budget('too many paths in ' + demangle(f.name))
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            stop = False
            while not stop:
                insts = f.blocks[block]
                if idx == 0 and not first:
                    if region is not None:
                        hdr, body = region
                        if block == hdr:
                            out.append(Res('back', st, prev=prev, target=block, regs=regs))
                            break
                        if block not in body:
                            out.append(Res('exit', st, prev=prev, target=block, regs=regs))
                            break
                    if block in loops and self.tailheads.get(f.name) == block:
                        vis = st.ghost.get('tailvis', ())
                        if (len(self.stack), block) in vis:
                            st.ghost['tail'] = self.tailvals(st, f, regs, insts, prev, False)
                            out.append(Res('ret', st, val=z3.Int('TAIL'), info='tail'))
                            break
                        st.ghost['tailvis'] = vis + ((len(self.stack), block),)
                        st.ghost['tailslots'] = self.tailvals(st, f, regs, insts, prev, True)
                    elif block in loops:
                        rs = self.loop(st, f, regs, block, prev)
                        self.cur = f
                        for r in rs:
                            if r.kind == 'exit':
                                work.append((r.st, r.regs, r.target, r.prev, 0, False))
                            else:
                                out.append(r)
                        break
                    # phis
                    np = {}
                    for ins in insts:
                        if ins.op != 'phi':
                            break
                        np[ins.dst] = self.phi_in(st, regs, ins, prev)
                    if np:
                        regs = dict(regs)
                        regs.update(np)
                first = False
                # instructions
                n = len(insts)
                i = idx
                idx = 0
                while i < n:
                    ins = insts[i]
                    op = ins.op
                    if op == 'phi':
                        i += 1
                        continue
                    st.steps += 1
                    if op == 'br':
                        if len(ins.x) == 1:
                            prev, block = block, ins.x[0]
                            break
                        c = simp(self.operand(st, regs, ins.args[0]))
                        if is_true(c):
                            prev, block = block, ins.x[0]
                            break
                        if is_false(c):
                            prev, block = block, ins.x[1]
                            break
                        ft = self.pv.feasible(st, (c,))
                        ff = self.pv.feasible(st, (Not(c),)) if ft else True
                        if ft and ff:
                            st2 = st.fork()
                            st2.assume(Not(c))
                            work.append((st2, dict(regs), ins.x[1], block, 0, False))
                            st.assume(c)
                            prev, block = block, ins.x[0]
                        elif ft:
                            st.assume(c)
                            prev, block = block, ins.x[0]
                        else:
                            st.assume(Not(c))
                            prev, block = block, ins.x[1]
                        break
                    if op == 'switch':
                        c = simp(self.operand(st, regs, ins.args[0]))
                        d, cases = ins.x
                        if isnum(c):
                            t = d
                            for v, l in cases:
                                if v == num(c):
                                    t = l
                            prev, block = block, t
                            break
                        for v, l in cases:
                            if self.pv.feasible(st, (c == v,)):
                                s2 = st.fork()
                                s2.assume(c == v)
                                work.append((s2, dict(regs), l, block, 0, False))
                        st.assume(And(*[c != v for v, _ in cases]))
                        if not self.pv.feasible(st):
                            stop = True
                            break
                        prev, block = block, d
                        break
                    if op == 'ret':
                        v = self.operand(st, regs, ins.args[0]) if ins.args else None
                        out.append(Res('ret', st, val=v, dbg=ins.dbg))
                        stop = True
                        break
                    if op == 'unreachable':
                        out.append(Res('abort', st, info='unreachable ' + self.where(f, ins)))
                        stop = True
                        break
                    if op in ('call', 'invoke'):
                        rs = self.call(st, f, regs, ins)
                        self.cur = f
                        cont = []
                        for kind, s2, v, info in rs:
                            if kind == 'ret':
                                r2 = regs if len(rs) == 1 else dict(regs)
                                if ins.dst is not None:
                                    r2 = dict(regs)
                                    r2[ins.dst] = v
                                cont.append((s2, r2))
                            else:
                                out.append(Res(kind, s2, info=info))
                        if not cont:
                            stop = True
                            break
                        for s2, r2 in cont[1:]:
                            if op == 'invoke':
                                work.append((s2, r2, ins.x['normal'], block, 0, False))
                            else:
                                work.append((s2, r2, block, prev, i + 1, False))
                        st, regs = cont[0]
                        if op == 'invoke':
                            prev, block = block, ins.x['normal']
                            break
                        i += 1
                        continue
                    if op == 'select':
                        c = simp(self.operand(st, regs, ins.args[0]))
                        a = self.operand(st, regs, ins.args[1])
                        b = self.operand(st, regs, ins.args[2])
                        regs = dict(regs)
                        if is_true(c):
                            regs[ins.dst] = a
                        elif is_false(c):
                            regs[ins.dst] = b
                        else:
                            regs[ins.dst] = simp(If(c, self.ptrval(a), self.ptrval(b)))
                        i += 1
                        continue
                    v = self.inst(st, f, regs, ins)
                    if ins.dst is not None:
                        regs = dict(regs)
                        regs[ins.dst] = v
                    i += 1
                else:
                    raise Unsupported('block without terminator')
        return out

    def tailvals(self, st, f, regs, insts, prev, first):
        """the loop-carried values that stand for the parameters when the function continues with a tail jump:
        phi nodes of the entry block or memory slots which hold the parameter on first entry"""
        cur = {i.dst: self.phi_in(st, regs, i, prev) for i in insts if i.op == 'phi'}
        for a in st.ghost.get('stack', ()):
            cur[('slot', a.get_id())] = self.read(st, 'mem8', a)
        if first:
            out = {}
            for i, p in enumerate(f.params):
                v = regs.get(p[0])
                for k, x in cur.items():
                    if z3.is_expr(v) and z3.is_expr(x) and x.get_id() == v.get_id():
                        out.setdefault(i, []).append(k)
            return out
        slots = st.ghost.get('tailslots', {})
        res = {}
        for i, p in enumerate(f.params):
            ks = slots.get(i, [])
            if len(ks) == 0:
                res[i] = regs.get(p[0])
            elif len(ks) == 1:
                res[i] = cur.get(ks[0])
            else:
                res[i] = None       # ambiguous
        return res

    def phi_in(self, st, regs, ins, prev):
        for v, l in ins.x:
            if l == prev:
                return self.operand(st, regs, v)
        raise Unsupported('phi without incoming edge')

    def wrapw(self, st, x, w):
        """wrap mathematical x to signed w bits"""
        x = simp(x)
        h = 1 << (w - 1)
        if isnum(x):
            return IntVal(sx(num(x), w))
        if self.pv.entails(st, And(x >= -h, x < h)):
            return x
        r = simp((x + h) % (1 << w) - h)
        self.unwrapped[r.get_id()] = (r, x, w)
        return r

    def u(self, x, w):
        x = simp(x)
        if isnum(x):
            return IntVal(num(x) & ((1 << w) - 1))
        return If(x >= 0, x, x + (1 << w))

    def inst(self, st, f, regs, ins):
        op = ins.op
        O = lambda k: self.operand(st, regs, ins.args[k])
        if op == 'unsupported':
            raise Unsupported('instruction ' + ins.text[:120])
        if op == 'getelementptr':
            return self.gep(st, regs, ins.ty, ins.args)
        if op == 'load':
            p = O(0)
            if isinstance(p, FieldPtr):
                self.obl(st, p.base != 0, 'dereference of non-null pointer (%s)' % p.key, 'null', self.where(f, ins))
                v = self.read(st, p.key, p.base)
                if ins.ty.kind == 'int' and p.fty.kind == 'int' and ins.ty.a != p.fty.a:
                    raise Unsupported('partial field load')
            else:
                if ins.ty.kind in ('struct', 'lit', 'array', 'vector'):
                    raise Unsupported('aggregate load')
                key, s = self.memkey(ins.ty)
                self.obl(st, p != 0, 'dereference of non-null pointer', 'null', self.where(f, ins))
                self.bounds(st, p, s, self.where(f, ins), key)
                v = self.read(st, key, p)
            if ins.ty.kind == 'int' and ins.ty.a == 1:
                return v != 0
            return v
        if op == 'store':
            v, p = O(0), O(1)
            v = self.ptrval(v)
            if isinstance(p, FieldPtr):
                self.obl(st, p.base != 0, 'store through non-null pointer (%s)' % p.key, 'null', self.where(f, ins))
                self.write(st, p.key, p.base, v)
            else:
                if ins.ty.kind in ('struct', 'lit', 'array', 'vector'):
                    raise Unsupported('aggregate store')
                key, s = self.memkey(ins.ty)
                self.obl(st, p != 0, 'store through non-null pointer', 'null', self.where(f, ins))
                self.bounds(st, p, s, self.where(f, ins), key)
                self.write(st, key, p, v)
            return None
        if op == 'alloca':
            n = self.prog.layout(ins.ty)[0]
            if ins.args:
                c = simp(O(0) if z3.is_expr(O(0)) else IntVal(O(0)))
                a = self.alloc(st, simp(c * n))
                if z3.is_int_value(c) and 8 < c.as_long() * n <= 1024:
                    st.ghost['stackarr'] = st.ghost.get('stackarr', ()) + ((a, c.as_long() * n),)
                else:
                    st.ghost['stack'] = st.ghost.get('stack', ()) + (a,)
                return a
            a = self.alloc(st, n)
            st.ghost['stack'] = st.ghost.get('stack', ()) + (a,)
            if ins.ty.kind == 'array' and 8 < n <= 1024:
                st.ghost['stackarr'] = st.ghost.get('stackarr', ()) + ((a, n),)
            return a
        if op == 'icmp':
            a, b = self.ptrval(O(0)), self.ptrval(O(1)) if not isinstance(O(1), FieldPtr) else O(1)
            p = ins.x
            if z3.is_bool(a) or z3.is_bool(b):
                r = a == b
                return simp(r if p == 'eq' else Not(r))
            if p == 'eq':
                return simp(a == b)
            if p == 'ne':
                return simp(a != b)
            w = ins.ty.a if ins.ty.kind == 'int' else 64
            if p[0] == 'u':
                a, b = self.u(a, w), self.u(b, w)
            q = p[1:]
            return simp(a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b)
        if op in ('add', 'sub', 'mul'):
            a, b = O(0), O(1)
            w = ins.ty.a
            if w == 1:
                return simp(z3.Xor(a, b))
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            r = simp(r)
            h = 1 << (w - 1)
            if w >= 128:
                # widening arithmetic: operands bounded by 64-bit values (sums) or products of two
                k = 1 << (64 if op == 'mul' else 126)
                if self.pv.entails(st, And(a >= -k, a <= k, b >= -k, b <= k)):
                    if op == 'mul':
                        st.assume(And(r >= -k * k, r <= k * k))
                    return r
            if 'nsw' in ins.x:
                if isnum(r) and -h <= num(r) < h:
                    return r
                g = And(r >= -h, r < h)
                if not self.pv.entails(st, g):
                    if self.ovf:
                        self.obl(st, g, 'no signed overflow in %s' % op, 'overflow', self.where(f, ins))
                    else:
                        st.assume(g)
                        self.note_assume('machine integers treated as mathematical at nsw operations (overflow excluded)')
                return r
            return self.wrapw(st, r, w)
        if op in ('sdiv', 'srem'):
            a, b = O(0), O(1)
            self.obl(st, b != 0, 'division by zero', 'div0', self.where(f, ins))
            h = 1 << (ins.ty.a - 1)
            if self.ovf:
                self.obl(st, Not(And(a == -h, b == -1)), 'no division overflow', 'overflow', self.where(f, ins))
            else:
                st.assume(Not(And(a == -h, b == -1)))
            r = tdiv(a, b) if op == 'sdiv' else trem(a, b)
            r = simp(r)
            if not isnum(b):
                q = TDIV(a, b)
                m = TREM(a, b)
                st.assume(a == q * b + m)
                st.assume(And(Implies(a >= 0, m >= 0), Implies(a <= 0, m <= 0), m < If(b > 0, b, -b), -m < If(b > 0, b, -b)))
                st.assume(And(q >= -h, q < h))
            return r
        if op in ('udiv', 'urem'):
            w = ins.ty.a
            a, b = self.u(O(0), w), self.u(O(1), w)
            self.obl(st, b != 0, 'division by zero', 'div0', self.where(f, ins))
            if op == 'urem' and not isnum(simp(b)):
                r = UREM(simp(a), simp(b))
                st.assume(And(r >= 0, r < b, Implies(a < b, r == a)))
                return r
            r = simp(a / b if op == 'udiv' else a % b)
            return self.wrapw(st, r, w)
        if op in ('and', 'or', 'xor'):
            a, b = O(0), O(1)
            if ins.ty.a == 1:
                return simp(And(a, b) if op == 'and' else Or(a, b) if op == 'or' else z3.Xor(a, b))
            a, b = simp(a), simp(b)
            w = ins.ty.a
            if isnum(a) and isnum(b):
                x, y = num(a), num(b)
                return IntVal(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
            if isnum(a):
                a, b = b, a
            if isnum(b):
                y = num(b)
                if op == 'and':
                    if y >= 0 and (y & (y + 1)) == 0:
                        return simp(a % (y + 1))
                    if y < 0 and ((-y) & (-y - 1)) == 0:
                        return simp(a - a % (-y))
                if op == 'xor' and y == -1:
                    return simp(-1 - a)
                if op != 'and' and y == 0:
                    return a
            return {'and': BAND, 'or': BOR, 'xor': BXOR}[op](a, b)
        if op in ('shl', 'lshr', 'ashr'):
            a, b = O(0), simp(O(1))
            w = ins.ty.a
            if isnum(b):
                k = num(b)
                if op == 'shl':
                    return self.wrapw(st, a * (1 << k), w)
                if op == 'lshr':
                    return self.wrapw(st, self.u(a, w) / (1 << k), w)
                return simp(a / (1 << k))
            return {'shl': BSHL, 'lshr': BLSHR, 'ashr': BASHR}[op](a, b)
        if op == 'zext':
            a = O(0)
            if ins.x.a == 1:
                return simp(b2i(a))
            return simp(self.u(a, ins.x.a))
        if op == 'sext':
            a = O(0)
            if ins.x.a == 1:
                return simp(-b2i(a))
            return a
        if op == 'trunc':
            a = O(0)
            if ins.ty.a == 1:
                a = simp(a)
                if isnum(a):
                    return BoolVal(bool(num(a) & 1))
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and isnum(a.arg(1)) and isnum(a.arg(2)):
                    t, e = num(a.arg(1)) & 1, num(a.arg(2)) & 1
                    if t and not e:
                        return a.arg(0)
                    if e and not t:
                        return simp(Not(a.arg(0)))
                if self.pv.entails(st, And(a >= 0, a <= 1)):
                    return simp(a == 1)
                return simp(a % 2 == 1)
            return self.wrapw(st, a, ins.ty.a)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = O(0)
            if op == 'ptrtoint' and ins.ty.a != 64:
                return self.wrapw(st, self.ptrval(a), ins.ty.a)
            return a
        if op == 'sitofp':
            a = simp(O(0))
            if isnum(a):
                return IntVal(dbits(float(num(a))))
            return i2f(st, a)
        if op == 'uitofp':
            return I2F(self.u(O(0), ins.x.a))
        if op in ('fptosi', 'fptoui'):
            r = F2I(O(0))
            if ins.ty.a == 32:
                r = F2I32(O(0))
            h = 1 << (ins.ty.a - 1)
            st.assume(And(r >= -h, r < h))
            return r
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return farith(st, op, O(0), O(1))
        if op == 'fneg':
            return FNEG(O(0))
        if op in ('fpext', 'fptrunc'):
            raise Unsupported('float width')
        if op == 'fcmp':
            a, b = O(0), O(1)
            p = ins.x
            if p == 'oeq':
                return feq(a, b)
            if p == 'une':
                return Not(feq(a, b))
            if p == 'olt':
                return FLT(a, b)
            if p == 'ogt':
                return FLT(b, a)
            if p == 'ole':
                return FLE(a, b)
            if p == 'oge':
                return FLE(b, a)
            if p == 'uno':
                return Or(FNAN(a), FNAN(b))
            if p == 'ord':
                return Not(Or(FNAN(a), FNAN(b)))
            if p == 'one':
                return Or(FLT(a, b), FLT(b, a))
            if p == 'ueq':
                return Not(Or(FLT(a, b), FLT(b, a)))
            if p == 'ult':
                return Not(FLE(b, a))
            if p == 'ule':
                return Not(FLT(b, a))
            if p == 'ugt':
                return Not(FLE(a, b))
            if p == 'uge':
                return Not(FLT(a, b))
        if op == 'extractvalue':
            v = O(0)
            for k in ins.x:
                v = v[k]
            return v
        if op == 'insertvalue':
            v = O(0)
            v = list(v) if isinstance(v, (tuple, list)) else [IntVal(0)] * 8
            v[ins.x[0]] = O(1)
            return tuple(v)
        raise Unsupported('instruction ' + op)

    ovf = False

    def note_assume(self, s):
        self.assumed.add(s)

    # ----------------------------------------------------------------- calls
    def call(self, st, f, regs, ins):
        """list of (kind, state, value, info)"""
        cop = ins.x['callee']
        if cop.kind == 'global':
            name = cop.v
            if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime'):
                return [('ret', st, None, '')]
            args = [self.operand(st, regs, a) for a in ins.args]
            return self.call_named(st, f, name, args, ins)
        args = [self.operand(st, regs, a) for a in ins.args]
        c = simp(self.operand(st, regs, cop))
        if isnum(c):
            nm = self.prog.gname.get(num(c))
            if nm:
                at = None
                if '@' in nm[1:] and nm[0] != '@':
                    # a static function of a module
                    mod, nm = nm.split('@', 1)
                    nm = '@' + nm
                    at = next((g for g in self.prog.by_name(nm) if g.module.name == mod), None)
                return self.call_named(st, f, nm, args, ins, at)
        return self.indirect(st, c, args, ins, f)

    def indirect(self, st, c, args, ins, f):
        h = self.builtins.get('<indirect>')
        if h:
            return h(self, st, [c] + args, ins, f)
        raise Unsupported('indirect call in ' + self.where(f, ins))

    def call_named(self, st, f, name, args, ins, at=None):
        short = demangle(name)
        for key in (name, short):
            h = self.builtins.get(key)
            if h is not None:
                r = h(self, st, args, ins, f)
                if r is not NotImplemented:
                    return r
        g = at or self.prog.lookup(f.module, name)
        if g is None:
            h = self.builtins.get('<unknown>')
            if h is not None:
                return h(self, st, [name] + args, ins, f)
            raise Unsupported('external function ' + name)
        if g.name in self.stack:
            h = self.builtins.get('<recursive>')
            if h is not None:
                r = h(self, st, [g] + args, ins, f)
                if r is not NotImplemented:
                    return r
            raise Unsupported('recursion in ' + short)
        rs = self.run(st, g, args)
        return [(r.kind, r.st, r.val, r.info) for r in rs]


from loops import install_loops
install_loops(Exec)
from builtin_fns import install_builtins
