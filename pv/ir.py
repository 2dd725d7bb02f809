"""LLVM-18 textual IR reader (just the subset clang -O0 + sroa emits for this code base).

Anything not understood becomes an 'unsupported' instruction; it is only an
error if symbolic execution actually reaches it."""
import re

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"          # quoted
 | c"(?:[^"\\]|\\.)*"
 | [%@!][A-Za-z0-9_.$\-]+ | [%@!]"(?:[^"\\]|\\.)*"
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KLMH]?[0-9A-Fa-f]+
 | -?\d+ | [A-Za-z_][A-Za-z0-9_.]* | \.\.\. | [()\[\]{}<>,=*:|\#!]
''', re.X)


class Ty:
    """kind: int(bits) ptr void double float struct(name) array(n,el) other"""
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.a
        if self.kind == 'struct':
            return '%' + str(self.a)
        if self.kind == 'array':
            return '[%s x %r]' % (self.a, self.b)
        if self.kind == 'lit':
            return '{%s}' % (', '.join(map(repr, self.a)))
        return self.kind

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


PTR = Ty('ptr')
VOID = Ty('void')


class Op:
    """operand: kind in reg,global,int,null,undef,fp,zero,cexpr,bool,str"""
    __slots__ = ('kind', 'v', 'ty')

    def __init__(self, kind, v, ty=None):
        self.kind, self.v, self.ty = kind, v, ty

    def __repr__(self):
        return '%s:%s' % (self.kind, self.v)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'dbg', 'text')

    def __init__(self, op, dst, ty=None, args=None, x=None, dbg=None, text=''):
        self.op, self.dst, self.ty, self.args, self.x, self.dbg, self.text = op, dst, ty, args or [], x, dbg, text


class Func:
    def __init__(self, name, params, ret, module):
        self.name, self.params, self.ret, self.module = name, params, ret, module
        self.blocks = {}     # label -> [Inst]
        self.order = []
        self.entry = None
        self.internal = False
        self.dbg = None
        self._loops = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke':
            return [t.x['normal']]
        return []

    def loops(self):
        """header -> set(body blocks)"""
        if self._loops is not None:
            return self._loops
        reach, stack = [], [self.entry]
        seen = {self.entry}
        # reverse postorder
        post = []
        it = [(self.entry, iter(self.succs(self.entry)))]
        while it:
            b, ch = it[-1]
            for s in ch:
                if s not in seen:
                    seen.add(s)
                    it.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                it.pop()
        rpo = post[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = loops
        self._preds = preds
        return loops


class P:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %s' % (x, y, self.t[:40]))


def unq(s):
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'returned', 'immarg', 'writable', 'dead_on_unwind', 'inreg', 'nofree', 'nest', 'swiftself', 'noreturn',
         'allocptr', 'allocalign', 'mustprogress', 'ccc', 'fastcc', 'nsz', 'nnan', 'ninf', 'fast', 'contract', 'arcp', 'reassoc', 'afn'}


def ptype(p):
    t = p.next()
    if t == 'ptr':
        ty = PTR
    elif t == 'void':
        ty = VOID
    elif re.fullmatch(r'i\d+', t):
        ty = Ty('int', int(t[1:]))
    elif t in ('double', 'float', 'label', 'metadata', 'x86_fp80', 'half', 'token'):
        ty = Ty(t)
    elif t.startswith('%'):
        ty = Ty('struct', unq(t)[1:])
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = ptype(p)
        p.expect(']')
        ty = Ty('array', n, e)
    elif t == '<':
        if p.peek() == '{':
            ty = ptype(p)
            p.expect('>')
        else:
            n = int(p.next())
            p.expect('x')
            e = ptype(p)
            p.expect('>')
            ty = Ty('vector', n, e)
    elif t == '{':
        el = []
        while not p.eat('}'):
            el.append(ptype(p))
            p.eat(',')
        ty = Ty('lit', tuple(el))
    else:
        raise SyntaxError('type? %r' % t)
    # function type
    if p.peek() == '(':
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
        return Ty('func', ty)
    return ty


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in ATTRS:
            p.next()
        elif t in ('align', ):
            p.next()
            p.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'memory', 'elementtype', 'captures', 'allocsize', 'nofpclass', 'range'):
            r = t
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
        elif t == '#':
            p.next()
            p.next()
        else:
            return


def pval(p, ty):
    t = p.next()
    if t.startswith('%'):
        return Op('reg', unq(t), ty)
    if t.startswith('@'):
        return Op('global', unq(t), ty)
    if t == 'null':
        return Op('null', 0, ty)
    if t in ('undef', 'poison'):
        return Op('undef', None, ty)
    if t == 'true':
        return Op('int', 1, ty)
    if t == 'false':
        return Op('int', 0, ty)
    if t == 'zeroinitializer':
        return Op('zero', 0, ty)
    if re.fullmatch(r'-?\d+', t):
        return Op('int', int(t), ty)
    if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t):
        return Op('fp', float(t), ty)
    if t.startswith('0x'):
        return Op('fp', t, ty)
    if t == 'c' and p.peek() and p.peek().startswith('"'):
        return Op('str', p.next(), ty)
    if t.startswith('c"'):
        return Op('str', t[1:], ty)
    if t == 'getelementptr':
        p.eat('inbounds')
        p.expect('(')
        bt = ptype(p)
        p.expect(',')
        ops = []
        while True:
            p.eat('inrange')
            oty = ptype(p)
            ops.append(pval(p, oty))
            if p.eat(')'):
                break
            p.expect(',')
        return Op('cgep', (bt, ops), ty)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sext', 'zext'):
        p.expect('(')
        sty = ptype(p)
        v = pval(p, sty)
        p.expect('to')
        dty = ptype(p)
        p.expect(')')
        return Op('ccast', (t, v, dty), ty)
    if t in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[t]
        els = []
        while not p.eat(close):
            ety = ptype(p)
            els.append(pval(p, ety))
            p.eat(',')
        return Op('agg', els, ty)
    raise SyntaxError('value? %r' % t)


class Module:
    def __init__(self, name):
        self.name = name
        self.funcs = {}
        self.structs = {}
        self.globals = {}      # name -> (ty, init Op or None, constant?)
        self.internals = set()  # names of internal globals
        self.aliases = {}
        self.fieldnames = {}   # struct name -> [names]
        self.lines = {}        # dbg id -> line
        self.decls = set()
        self.dbgnames = {}     # function mangled -> (source name)


def cstr(op):
    """decode c"..." -> bytes"""
    s = op.v
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_inst(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    body = re.sub(r'(, )?![A-Za-z_.]+ !\d+', '', line)
    body = re.sub(r' #\d+', '', body)
    text = body.strip()
    p = P(text)
    dst = None
    if p.peek(1) == '=':
        dst = unq(p.next())
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = lambda **k: Inst(op, dst, dbg=dbg, text=text, **k)
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        flags = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in ATTRS:
            flags.add(p.next())
        ty = ptype(p)
        a = pval(p, ty)
        p.expect(',')
        b = pval(p, ty)
        return I(ty=ty, args=[a, b], x=flags)
    if op == 'fneg':
        ty = ptype(p)
        return I(ty=ty, args=[pval(p, ty)])
    if op in ('icmp', 'fcmp'):
        pred = p.next()
        while pred in ATTRS:
            pred = p.next()
        ty = ptype(p)
        a = pval(p, ty)
        p.expect(',')
        b = pval(p, ty)
        return I(ty=ty, args=[a, b], x=pred)
    if op == 'load':
        p.eat('volatile')
        ty = ptype(p)
        p.expect(',')
        pt = ptype(p)
        return I(ty=ty, args=[pval(p, pt)])
    if op == 'store':
        p.eat('volatile')
        ty = ptype(p)
        v = pval(p, ty)
        p.expect(',')
        pt = ptype(p)
        return I(ty=ty, args=[v, pval(p, pt)])
    if op == 'alloca':
        ty = ptype(p)
        n = None
        if p.eat(','):
            if p.peek() != 'align':
                nt = ptype(p)
                n = pval(p, nt)
        return I(ty=ty, args=[n] if n else [])
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = ptype(p)
        ops = []
        while p.eat(','):
            oty = ptype(p)
            ops.append(pval(p, oty))
        return I(ty=bt, args=ops)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return I(x=[unq(p.next())[1:]])
        ty = ptype(p)
        c = pval(p, ty)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())[1:]
        p.expect(',')
        p.expect('label')
        b = unq(p.next())[1:]
        return I(args=[c], x=[a, b])
    if op == 'switch':
        ty = ptype(p)
        c = pval(p, ty)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            cty = ptype(p)
            v = pval(p, cty)
            p.expect(',')
            p.expect('label')
            cases.append((v.v, unq(p.next())[1:]))
        return I(ty=ty, args=[c], x=(d, cases))
    if op == 'ret':
        ty = ptype(p)
        if ty.kind == 'void':
            return I(ty=ty)
        return I(ty=ty, args=[pval(p, ty)])
    if op == 'unreachable':
        return I()
    if op == 'phi':
        while p.peek() in ATTRS:
            p.next()
        ty = ptype(p)
        inc = []
        while True:
            p.expect('[')
            v = pval(p, ty)
            p.expect(',')
            l = unq(p.next())[1:]
            p.expect(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return I(ty=ty, x=inc)
    if op == 'select':
        while p.peek() in ATTRS:
            p.next()
        ct = ptype(p)
        c = pval(p, ct)
        p.expect(',')
        ty = ptype(p)
        a = pval(p, ty)
        p.expect(',')
        ty = ptype(p)
        b = pval(p, ty)
        return I(ty=ty, args=[c, a, b])
    if op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
        p.eat('nneg')
        sty = ptype(p)
        v = pval(p, sty)
        p.expect('to')
        ty = ptype(p)
        return I(ty=ty, args=[v], x=sty)
    if op in ('call', 'invoke'):
        skip_attrs(p)
        ty = ptype(p)
        if ty.kind == 'func':
            ty = ty.a
        if p.peek() == '(':
            pass
        callee = pval(p, PTR)
        p.expect('(')
        args = []
        sret = False
        while not p.eat(')'):
            aty = ptype(p)
            if aty.kind == 'metadata':
                # skip to matching , or )
                d = 0
                while True:
                    t = p.peek()
                    if d == 0 and t in (',', ')'):
                        break
                    if t == '(':
                        d += 1
                    if t == ')':
                        d -= 1
                    p.next()
                p.eat(',')
                continue
            skip_attrs(p)
            args.append(pval(p, aty))
            p.eat(',')
        x = {'callee': callee}
        if op == 'invoke':
            skip_attrs(p)
            p.expect('to')
            p.expect('label')
            x['normal'] = unq(p.next())[1:]
        return I(ty=ty, args=args, x=x)
    if op in ('extractvalue',):
        ty = ptype(p)
        v = pval(p, ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return I(ty=ty, args=[v], x=idx)
    if op in ('insertvalue',):
        ty = ptype(p)
        v = pval(p, ty)
        p.expect(',')
        ety = ptype(p)
        e = pval(p, ety)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return I(ty=ty, args=[v, e], x=idx)
    if op == 'freeze':
        ty = ptype(p)
        return I(ty=ty, args=[pval(p, ty)])
    return Inst('unsupported', dst, dbg=dbg, text=text)


def parse_module(text, name='m'):
    M = Module(name)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    F = None
    cur = None
    md = {}
    while i < n:
        L = lines[i]
        i += 1
        if F is None:
            if not L or L[0] == ';':
                continue
            if L.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[^ ]+)) = type (.*)', L)
                if m:
                    nm = unq(m.group(1))[1:]
                    if m.group(2).strip() == 'opaque':
                        M.structs[nm] = None
                    else:
                        try:
                            ty = ptype(P(m.group(2)))
                            M.structs[nm] = list(ty.a) if ty.kind == 'lit' else None
                        except Exception:
                            M.structs[nm] = None
                continue
            if L.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[^ ]+)) = (.*)', L)
                nm = unq(m.group(1))
                rest = m.group(2)
                const = ' constant ' in ' ' + rest.split('"')[0]
                if re.match(r'(internal|private) ', rest):
                    M.internals.add(nm)
                m2 = re.search(r'\b(global|constant)\b (.*)', rest)
                if m2:
                    s = re.sub(r', comdat(\([^)]*\))?|, align \d+|, !dbg !\d+|, section "[^"]*"', '', m2.group(2))
                    try:
                        p = P(s)
                        ty = ptype(p)
                        init = None
                        if p.peek() is not None:
                            init = pval(p, ty)
                        M.globals[nm] = (ty, init, const)
                    except Exception:
                        M.globals[nm] = (None, None, const)
                continue
            if L.startswith('define '):
                F = parse_define(L, M)
                cur = None
                continue
            if L.startswith('declare '):
                m = re.search(r'@("?[A-Za-z0-9_.$]+"?)\(', L)
                if m:
                    M.decls.add('@' + m.group(1).strip('"'))
                continue
            if L.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', L)
                if m:
                    md[int(m.group(1))] = m.group(2)
                continue
            continue
        # in function
        if L == '}':
            M.funcs[F.name] = F
            F = None
            continue
        if not L.strip() or L.strip().startswith(';'):
            continue
        m = re.match(r'^("(?:[^"]*)"|[A-Za-z0-9_.$\-]+):', L)
        if m and not L.startswith(' '):
            cur = m.group(1).strip('"')
            F.blocks[cur] = []
            F.order.append(cur)
            continue
        if cur is None:
            cur = F.implicit
            F.blocks[cur] = []
            F.order.append(cur)
        if F.entry is None:
            F.entry = F.order[0]
        s = L.strip()
        if s.startswith('tail call void @llvm.dbg') or s.startswith('call void @llvm.dbg') or s.startswith('#dbg'):
            continue
        # join multi-line switch / invoke
        if re.match(r'switch ', s) and ']' not in s.split('[', 1)[1]:
            while True:
                s += ' ' + lines[i].strip()
                i += 1
                if lines[i - 1].strip().startswith(']'):
                    break
        if (' invoke ' in ' ' + s) and ' unwind label' not in s:
            s += ' ' + lines[i].strip()
            i += 1
        if ' landingpad ' in ' ' + s:
            while lines[i].strip().startswith(('catch', 'cleanup', 'filter')):
                i += 1
        try:
            ins = parse_inst(s)
        except Exception as e:
            ins = Inst('unsupported', None, text=s + '  [' + repr(e) + ']')
        F.blocks[cur].append(ins)
    _debuginfo(M, md)
    return M


def parse_define(L, M):
    m = re.search(r'@("(?:[^"]*)"|[A-Za-z0-9_.$]+)\(', L)
    nm = '@' + m.group(1).strip('"')
    head = L[:m.start()]
    # find parameter list by bracket match
    st = m.end()
    d = 1
    j = st
    while d:
        if L[j] == '(':
            d += 1
        elif L[j] == ')':
            d -= 1
        j += 1
    ps = L[st:j - 1]
    p = P(ps)
    params = []
    varargs = False
    cnt = 0
    while p.peek() is not None:
        if p.eat('...'):
            varargs = True
            break
        ty = ptype(p)
        skip_attrs(p)
        if p.peek() and p.peek().startswith('%'):
            params.append((unq(p.next()), ty))
        else:
            params.append(('%' + str(cnt), ty))
        cnt += 1
        p.eat(',')
    rt = head.split()
    hp = P(re.sub(r'\b(define|dso_local|internal|linkonce_odr|weak_odr|hidden|private|weak|noundef|zeroext|signext|nonnull|unnamed_addr|local_unnamed_addr|noalias|available_externally)\b|align \d+|dereferenceable\(\d+\)', '', head))
    ret = ptype(hp)
    F = Func(nm, params, ret, M)
    F.internal = ' internal ' in head
    F.varargs = varargs
    F.implicit = str(len([x for x in params if re.fullmatch(r'%\d+', x[0])]))
    m = re.search(r'!dbg !(\d+)', L)
    F.dbg = int(m.group(1)) if m else None
    return F


def _debuginfo(M, md):
    # struct field names
    def field(s, k):
        m = re.search(r'\b%s: ("([^"]*)"|!(\d+)|(-?\d+))' % k, s)
        if not m:
            return None
        return m.group(2) if m.group(2) is not None else (int(m.group(3)) if m.group(3) else int(m.group(4)))
    scopes = {}
    for k, s in md.items():
        if s.startswith('distinct !DICompositeType') or s.startswith('!DICompositeType'):
            if 'DW_TAG_structure_type' in s or 'DW_TAG_union_type' in s or 'DW_TAG_class_type' in s:
                nm = field(s, 'name')
                el = field(s, 'elements')
                if nm is None or el is None or el not in md:
                    continue
                sc = field(s, 'scope')
                full = nm
                if isinstance(sc, int) and sc in md and 'DICompositeType' in md[sc]:
                    pn = field(md[sc], 'name')
                    if pn:
                        full = pn + '::' + nm
                ids = [int(x) for x in re.findall(r'!(\d+)', md[el])]
                names = []
                for d in ids:
                    s2 = md.get(d, '')
                    if 'DW_TAG_member' in s2 and 'DIFlagStaticMember' not in s2:
                        names.append((field(s2, 'name'), field(s2, 'offset') or 0))
                M.fieldnames['struct.' + full] = [x for x, _ in names]
        elif 'DILocation(' in s:
            M.lines[k] = field(s, 'line')
        elif 'DISubprogram(' in s:
            ln = field(s, 'linkageName') or field(s, 'name')
            M.dbgnames['@' + str(ln)] = field(s, 'name')
