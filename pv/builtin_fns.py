"""Contracts assumed for the runtime the interpreter sits on (allocator, libc) and
no-op treatment of diagnostics.  Every one that is used is reported as an assumption."""
from engine import *
from symex_types import UMAX

SCMT = ['NONE', 'NIL', 'LIST', 'PROC', 'CONT', 'FUNC', 'NUM', 'FLOAT', 'CHAR', 'BOOL', 'SYM', 'STR', 'MACRO',
        'HASH_TABLE', 'RATIO', 'VECTOR', 'PORT', 'PROMISE', 'MODULE', 'SMOB', 'VARIABLE']
T = {n: i for i, n in enumerate(SCMT)}
PTRTYPES = ['LIST', 'PROC', 'CONT', 'FUNC', 'SYM', 'STR', 'MACRO', 'HASH_TABLE', 'RATIO', 'VECTOR', 'PORT', 'PROMISE',
            'MODULE', 'SMOB', 'VARIABLE']
TAGS = {0: 'SCM', 1: 'SCM_List', 2: 'SCM_Procedure', 3: 'SCM_Function', 4: 'SCM_Continuation', 5: 'SCM_Module', 6: 'SCM_Port', 7: 'SCM_Vector',
        8: 'SCM_HashTable', 9: 'SCM_Environment', 10: 'SCM_String', 11: 'SCM_Symbol', 12: 'SCM_Rational', 13: 'SCM_Promise', 14: 'SCM_Macro',
        15: 'SCM_Variable', 16: 'SCM_Smob'}

TOUPPER = z3.Function('toupper', I, I)
TOLOWER = z3.Function('tolower', I, I)


def ret(st, v=None):
    return [('ret', st, v, '')]


def singleton(ex, st, name):
    """address of a permanent singleton object"""
    c = z3.Int('OBJ_' + name)
    return c


def singleton_types(name):
    return {'nil': ('NIL', 0), 'none': ('NONE', 0), 'bool_true': ('BOOL', 1), 'bool_false': ('BOOL', 0)}.get(name)


SINGLES = ['nil', 'none', 'bool_true', 'bool_false', 'sym_let', 'sym_quote', 'sym_quasiquote', 'sym_unquote', 'sym_unquote_splicing', 'sym_letrec', 'sym_set', 'sym_lambda']


def single_facts(st):
    """assumed invariant: the singletons are distinct permanent objects with their defining type/value"""
    A0 = st.ghost['A0']
    objs = [z3.Int('OBJ_' + n) for n in SINGLES]
    ty = z3.Const('SCM.type@0', ARR)
    va = z3.Const('SCM.value@0', ARR)
    for n, o in zip(SINGLES, objs):
        st.assume(And(o > 0, o < A0))
        tv = singleton_types(n)
        if tv:
            st.assume(Select(ty, o) == T[tv[0]])
            st.assume(Select(va, o) == tv[1])
        else:
            st.assume(Select(ty, o) == T['SYM'])
            st.assume(And(Select(va, o) > 0, Select(va, o) < A0))
    st.assume(z3.Distinct(*objs))


def flat_fields(prog, sname, base=0):
    n, els = prog.struct_els(sname)
    out = []
    for k, e in enumerate(els):
        off = prog.offset(els, k)
        if e.kind == 'struct':
            out += [(o, key, t) for o, key, t in flat_fields(prog, e.a, base + off)]
        elif e.kind in ('array', 'lit'):
            continue
        else:
            out.append((base + off, prog.fieldname(n, k), e))
    return out


def bi_gc_alloc(ex, st, args, ins, f):
    ex.note_assume('gc_alloc(tag,size) returns a fresh zero-initialised object (allocator contract; no collection observable)')
    tag, size = simp(args[0]), simp(args[1])
    a = ex.alloc(st, size, extent=False)
    if z3.is_int_value(tag) and tag.as_long() in TAGS:
        s = TAGS[tag.as_long()]
        st.otypes[a.get_id()] = (s, a)
        for off, key, ty in flat_fields(ex.prog, 'struct.' + s):
            ex.write(st, key, a + off if off and not key.startswith(s + '.') else a, IntVal(0))
    return ret(st, a)


def bi_malloc(ex, st, args, ins, f):
    ex.note_assume('malloc/new[] return fresh memory (no allocation failure)')
    size = simp(args[-1])
    st.assume(And(size >= 0, size < (1 << 48)))
    return ret(st, ex.alloc(st, size))


def bi_calloc(ex, st, args, ins, f):
    ex.note_assume('malloc/new[] return fresh memory (no allocation failure)')
    size = simp(args[0] * args[1])
    st.assume(And(size >= 0, size < (1 << 48)))
    a = ex.alloc(st, size)
    z = lambda s, x: IntVal(0)
    z.pure = lambda x: IntVal(0)
    for k in ('mem1', 'mem8'):
        ex.range_update(st, k, a, simp(a + size), z)
    return ret(st, a)


def bi_noop(ex, st, args, ins, f):
    ty = ins.ty
    if ty is None or ty.kind == 'void':
        return ret(st, None)
    if ty.kind == 'int' and ty.a == 1:
        return ret(st, ex.fresh(st, 'noop', B))
    v = ex.fresh(st, 'noop')
    if ty.kind == 'int':
        h = 1 << (ty.a - 1)
        st.assume(And(v >= -h, v < h))
    return ret(st, v)


def bi_err(ex, st, args, ins, f):
    return [('err', st, None, ex.where(f, ins))]


def bi_abort(ex, st, args, ins, f):
    return [('abort', st, None, 'abort ' + ex.where(f, ins))]


def bi_strlen(ex, st, args, ins, f):
    p = args[0]
    if z3.is_int_value(simp(p)):
        nm = ex.prog.gname.get(simp(p).as_long())
        g = ex.prog.gconst.get(nm)
        if g and g[1] is not None and g[1].kind == 'str':
            b = cstr(g[1])
            return ret(st, IntVal(b.index(0)))
    kb = known_bytes(ex, st, simp(p))
    if kb is not None:
        return ret(st, IntVal(kb.index(0)))
    h = ex.builtins.get('<strlen>')
    if h:
        return h(ex, st, args, ins, f)
    raise Unsupported('strlen')


def bi_memcpy(ex, st, args, ins, f):
    d, s, n = [simp(a) for a in args[:3]]
    if not ex.pv.entails(st, n >= 1):
        if ex.pv.entails(st, n <= 0):
            return ret(st, d)
    ex.bounds(st, d, n, ex.where(f, ins), 'mem1')
    ex.bounds(st, s, n, ex.where(f, ins), 'mem1')
    for key in ('mem1',):
        src = ex.getmap(st, key)
        arr = src.array()
        fn = lambda stt, a, src=src: ex.readmap(stt, key, src, simp(s + (a - d)))
        fn.pure = lambda a: Select(arr, s + (a - d))
        ex.range_update(st, key, d, simp(d + n), fn)
    return ret(st, d)


def bi_strcpy(ex, st, args, ins, f):
    (_, _, n, _), = bi_strlen(ex, st, args[1:], ins, f)
    return bi_memcpy(ex, st, [args[0], args[1], simp(n + 1)], ins, f)


def bi_memset(ex, st, args, ins, f):
    d, c, n = [simp(a) for a in args[:3]]
    ex.bounds(st, d, n, ex.where(f, ins), 'mem1')
    fn = lambda stt, a: c
    fn.pure = lambda a: c
    ex.range_update(st, 'mem1', d, simp(d + n), fn)
    if z3.is_int_value(c) and c.as_long() == 0:
        ex.range_update(st, 'mem8', d, simp(d + n), fn)
    return ret(st, d)


def bi_umul(ex, st, args, ins, f):
    a, b = ex.u(simp(args[0]), 64), ex.u(simp(args[1]), 64)
    p = simp(a * b)
    o = simp(p >= (1 << 64))
    if ex.pv.entails(st, Not(o)):
        o = BoolVal(False)
    return ret(st, (ex.wrapw(st, p, 64), o))


def known_bytes(ex, st, p):
    """bytes (with terminator) of a C string whose contents are known"""
    g = st.ghost.get(('cstr', p.get_id()))
    if g is not None:
        return g[0]
    if z3.is_int_value(p):
        gl = ex.prog.gconst.get(ex.prog.gname.get(p.as_long()))
        if gl and gl[1] is not None and gl[1].kind == 'str' and gl[2]:
            return cstr(gl[1])
    return None


def u8(x):
    return If(x >= 0, x, x + 256)


def compare_builtin(kind):
    def h(ex, st, args, ins, f):
        """memcmp / strncmp / strcmp by their ISO C specification (a first-difference witness)"""
        ex.note_assume('%s behaves as specified by ISO C' % kind)
        a, b = simp(args[0]), simp(args[1])
        ka, kb = known_bytes(ex, st, a), known_bytes(ex, st, b)
        if ka is not None and kb is not None and (len(args) < 3 or z3.is_int_value(simp(args[2]))):
            x, y = ka, kb
            if len(args) > 2:
                n = simp(args[2]).as_long()
                x, y = ka[:n], kb[:n]
            if kind != 'memcmp' or (len(args) > 2 and len(ka) >= n and len(kb) >= n):
                if kind != 'memcmp':
                    x, y = x.split(b'\0')[0], y.split(b'\0')[0]
                return ret(st, IntVal(-1 if x < y else 1 if x > y else 0))
        m = ex.getmap(st, 'mem1')
        arr = m.array()
        r = ex.fresh(st, kind)
        d = ex.fresh(st, 'diff')
        n = simp(args[2]) if len(args) > 2 else None
        A = lambda j: ex.cread('mem1', arr, simp(a + j))
        Bf = lambda j: ex.cread('mem1', arr, simp(b + j))
        IDX = st
        st.addidx(d)
        st.assume(d >= 0)
        st.assume(And(r >= -(1 << 31), r < (1 << 31)))
        # d: index of the first difference, or of the end of the comparison
        if kind == 'memcmp':
            n = ex.u(n, 64)
            ex.bounds_if(st, a, n, ex.where(f, ins))
            ex.bounds_if(st, b, n, ex.where(f, ins))
            st.assume(d <= n)
            st.fact(IdxFact(IntVal(0), d, lambda j: A(j) == Bf(j), 'memcmp-eq'))
            st.assume(Implies(d < n, A(d) != Bf(d)))
            st.assume((r == 0) == (d == n))
            st.assume(Implies(d < n, (r < 0) == (u8(A(d)) < u8(Bf(d)))))
        else:
            lim = BoolVal(True)
            if n is not None:
                n = ex.u(n, 64)
                st.assume(d <= n)
                lim = d < n
            st.fact(IdxFact(IntVal(0), d, lambda j: And(A(j) == Bf(j), A(j) != 0), 'strcmp-eq'))
            st.assume(Implies(lim, Or(A(d) != Bf(d), A(d) == 0)))
            same = And(A(d) == Bf(d)) if n is None else Or(d == n, A(d) == Bf(d))
            st.assume((r == 0) == same)
            st.assume(Implies(Not(same), (r < 0) == (u8(A(d)) < u8(Bf(d)))))
            # an operand whose bytes are known (a literal): spell the comparison out
            for k, K, O in ((kb, Bf, A), (ka, A, Bf)):
                if k is not None and b'\0' in k and k.index(b'\0') <= 32:
                    L = k.index(b'\0')
                    sgn = [x - 256 if x > 127 else x for x in k[:L + 1]]
                    st.assume(d <= L)
                    for i in range(L + 1):
                        st.assume(Implies(d == i, K(d) == sgn[i]))
                        st.assume(Implies(d > i, O(IntVal(i)) == sgn[i]))
                    break
        return ret(st, r)
    return h


def cls(pred, name):
    def h(ex, st, args, ins, f):
        """ctype predicates: exact in the C locale for EOF..255"""
        ex.note_assume('ctype functions follow the C locale')
        x = args[0]
        v = ex.fresh(st, name)
        st.assume((v != 0) == pred(x))
        st.assume(And(v >= -(1 << 31), v < (1 << 31)))
        return ret(st, v)
    return h


def is_upper(x): return And(x >= 65, x <= 90)
def is_lower(x): return And(x >= 97, x <= 122)
def is_alpha(x): return Or(is_upper(x), is_lower(x))
def is_digit(x): return And(x >= 48, x <= 57)
def is_space(x): return Or(x == 32, And(x >= 9, x <= 13))
def up(x): return If(is_lower(x), x - 32, x)
def down(x): return If(is_upper(x), x + 32, x)


def install_builtins(ex):
    b = ex.builtins
    b['gc_alloc'] = bi_gc_alloc
    for n in ('malloc', '_Znwm', '_Znam', '@malloc', '@_Znwm', '@_Znam'):
        b[n] = bi_malloc
    b['@calloc'] = bi_calloc
    for n in ('@free', '@_ZdlPv', '@_ZdaPv', '@printf', '@fprintf', '@fflush', '@puts', '@putchar', '@fputs',
              '@_ZdlPvm', '@_ZdaPvm', '@llvm.va_start', '@llvm.va_end', '@backtrace',
              'print_ast', 'print_list', 'print_basename', 'get_source_location_str', 'print_eval_stack', 'copy_source_location', 'set_source_location',
              'copy_source_location_recursive', 'print_basic_location', 'gc_register_root', 'print_source_location',
              'push_eval_stack', 'pop_eval_stack', 'report_eval_error', 'report_arg_mismatch'):
        b[n] = bi_noop
    b['eval_error'] = bi_err
    b['type_error'] = bi_err
    for n in ('@__assert_fail', '@abort', '@exit', '@_ZSt9terminatev', '@llvm.trap'):
        b[n] = bi_abort
    for n in SINGLES:
        b['scm_' + n] = (lambda ex, st, args, ins, f, n=n: (ex.note_assume('singleton objects (scm_nil, scm_none, #t, #f, keyword symbols) are permanent and distinct'), ret(st, singleton(ex, st, n)))[1])
    b['@strlen'] = bi_strlen
    b['@strcpy'] = bi_strcpy
    b['@llvm.memcpy.p0.p0.i64'] = bi_memcpy
    b['@llvm.memset.p0.i64'] = bi_memset
    b['@memcpy'] = bi_memcpy
    b['@memset'] = bi_memset
    b['@llvm.umul.with.overflow.i64'] = bi_umul
    b['@memcmp'] = compare_builtin('memcmp')
    b['@bcmp'] = compare_builtin('memcmp')
    b['@strncmp'] = compare_builtin('strncmp')
    b['@strcmp'] = compare_builtin('strcmp')
    b['@isspace'] = cls(is_space, 'isspace')
    b['@isdigit'] = cls(is_digit, 'isdigit')
    b['@isalpha'] = cls(is_alpha, 'isalpha')
    b['@isupper'] = cls(is_upper, 'isupper')
    b['@islower'] = cls(is_lower, 'islower')
    b['@isalnum'] = cls(lambda x: Or(is_alpha(x), is_digit(x)), 'isalnum')
    b['@isprint'] = cls(lambda x: And(x >= 32, x <= 126), 'isprint')
    b['@toupper'] = lambda ex, st, args, ins, f: (ex.note_assume('ctype functions follow the C locale'), ret(st, simp(up(args[0]))))[1]
    b['@tolower'] = lambda ex, st, args, ins, f: (ex.note_assume('ctype functions follow the C locale'), ret(st, simp(down(args[0]))))[1]
