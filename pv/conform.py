"""Bounded differential runs of the real interpreter: Scheme expressions against a Python oracle.
They replay counterexamples of failed obligations and stand in (labelled bounded) where a function is out of the prover's reach."""
import os, subprocess, tempfile, shutil, random, re, math
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PV_REPO', '/repo')
CXX = 'clang++-18'
FLAGS = ['-I%s/src/c' % REPO, '-O0', '-g', '-include', 'limits.h', '-std=gnu++20', '-w', '-fno-omit-frame-pointer']
PRELUDE = "(define (safe thunk) (catch #t thunk (lambda (k . a) 'ERR)))\n"


def build(dst, extra=()):
    """the interpreter built from /repo's current sources into dst; returns (path, error)"""
    src = sorted(os.path.join(REPO, 'src/c', f) for f in os.listdir(os.path.join(REPO, 'src/c')) if f.endswith('.cc')) + [os.path.join(REPO, 'src/main.cc')]

    def one(f):
        o = os.path.join(dst, os.path.basename(f) + '.o')
        p = subprocess.run([CXX, *FLAGS, *extra, '-o', o, '-c', f], capture_output=True, text=True)
        return o, p.returncode, p.stderr
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, src))
    for o, rc, err in rs:
        if rc:
            return None, err[-2000:]
    exe = os.path.join(dst, 'pscm')
    p = subprocess.run([CXX, *extra, *[r[0] for r in rs], '-o', exe], capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-2000:]
    for r in rs:
        os.unlink(r[0])
    return exe, None


class Sym(str):
    pass


class Ch(str):
    pass


class Vec(list):
    pass


class Dot:
    """improper list: elements then tail"""

    def __init__(self, els, tail):
        self.els, self.tail = els, tail


def wchar(c):
    return {' ': '#\\space', '\n': '#\\newline', '\t': '#\\ht'}.get(c, '#\\' + c)


def w(v):
    """external representation, as `write` gives it"""
    if v is True:
        return '#t'
    if v is False:
        return '#f'
    if isinstance(v, int):
        return str(v)
    if hasattr(v, 'numerator') and hasattr(v, 'denominator') and not isinstance(v, int):
        return str(v.numerator) if v.denominator == 1 else '%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, Sym):
        return str(v)
    if isinstance(v, Ch):
        return wchar(v)
    if isinstance(v, str):
        o = ''
        for c in v:
            if c in '\\"':
                o += '\\' + c
            elif c in '\n\t\r':
                o += {'\n': '\\n', '\t': '\\t', '\r': '\\r'}[c]
            elif 32 <= ord(c) < 127:
                o += c
            else:
                o += '\\%03o' % ord(c)
        return '"' + o + '"'
    if isinstance(v, float):
        return '%.1f' % v if v == int(v) else '%.14g' % v
    if isinstance(v, Dot):
        return '(' + ' '.join(w(x) for x in v.els) + ' . ' + w(v.tail) + ')'
    if isinstance(v, Vec):
        return '#(' + ' '.join(w(x) for x in v) + ')'
    if isinstance(v, (list, tuple)):
        return '(' + ' '.join(w(x) for x in v) + ')'
    if v is None:
        return 'none'
    raise TypeError(type(v))


def q(v):
    """an expression evaluating to v"""
    if isinstance(v, (Sym, list, tuple, Dot)):
        return "'" + src(v) if not isinstance(v, Vec) else src(v)
    return src(v)


def src(v):
    """datum syntax"""
    if isinstance(v, str) and not isinstance(v, (Sym, Ch)):
        o = ''
        for c in v:
            o += '\\' + c if c in '\\"' else {'\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c)
        return '"' + o + '"'
    if isinstance(v, Ch):
        return {' ': '#\\space', '\n': '#\\newline', '\t': '#\\tab'}.get(v, '#\\' + v)
    if isinstance(v, Dot):
        return '(' + ' '.join(src(x) for x in v.els) + ' . ' + src(v.tail) + ')'
    if isinstance(v, Vec):
        return '#(' + ' '.join(src(x) for x in v) + ')'
    if isinstance(v, (list, tuple)):
        return '(' + ' '.join(src(x) for x in v) + ')'
    return w(v)


ERR = 'ERR'
# an expression of every kind of object, and how write prints it (None: not a fixed text)
OBJS = [('#f', '#f'), ('#t', '#t'), ("'()", '()'), ('0', '0'), ('-5', '-5'), ('9007199254740993', '9007199254740993'), ('1.5', '1.5'), ('0.0', '0.0'), ('(/ 1 3)', '1/3'), ('""', '""'), ('"abc"', '"abc"'), ("'a", 'a'), ("'else", 'else'),
        ('#\\a', '#\\a'), ("'(1 2)", '(1 2)'), ("'(1 . 2)", '(1 . 2)'), ("'(())", '(())'), ('(list #f)', '(#f)'), ('(vector)', '#()'), ('(vector 1 #f)', '#(1 #f)'), ('car', None), ('(lambda (x) x)', None), ('(make-variable 1)', None),
        ('(make-undefined-variable)', None), ('(delay 1)', None), ('(make-hash-table)', None), ('(open-input-string "x")', None), ("(if #f #f)", None), ('(call/cc (lambda (k) k))', None), ('(current-module)', None)]
I64 = (-(1 << 63), (1 << 63) - 1)


def fits(n):
    return I64[0] <= n <= I64[1]


class Cases:
    def __init__(self, seed, tier, ints=(), focus=()):
        self.rng = random.Random(seed * 7919 + 13)
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.hint = sorted(set(int(i) for i in ints if fits(int(i))))
        self.defs = []
        self.cases = []      # (expr, want, tag)
        self.prog = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def pre(self, text):
        self.defs.append(text)

    def ints(self, lo=I64[0], hi=I64[1], small=True):
        base = [0, 1, -1, 2, -2, 3, -3, 5, 7, 10, -10, 12, 100, 255, 256, -256, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32), (1 << 53), (1 << 53) + 1, -(1 << 53) - 1, (1 << 62), (1 << 63) - 1, -(1 << 63) + 1]
        o = []
        for b in base + self.hint:
            if lo <= b <= hi and b not in o:
                o.append(b)
        return o

    def lens(self, hi=40):
        o = []
        for b in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 33] + [h + d for h in self.hint for d in (-1, 0, 1)] + [65, 129, 257, 300]:
            # (constants of the code under test count up to 700 whatever the usual bound)
            if 0 <= b <= (hi if b < 34 else 700) and b not in o:
                o.append(b)
        return o

    def case(self, expr, want, tag=''):
        self.cases.append((expr, want, tag))

    def err(self, expr, tag=''):
        self.case(expr, ERR, tag)

    def program(self, name, text, want):
        """a whole script and its expected output (string or predicate)"""
        self.prog.append((name, text, want))


def normal(c):
    """a case is non-trivial unless it is a literal"""
    return '(' in c[0]


def run_script(exe, text, cwd, timeout=25):
    fd, f = tempfile.mkstemp(suffix='.scm', dir=cwd)
    with os.fdopen(fd, 'w', encoding='latin1') as h:
        h.write(text)
    try:
        p = subprocess.run([exe, '--test', f], capture_output=True, timeout=timeout, cwd=cwd, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1')
    finally:
        os.unlink(f)


def run_chunk(exe, defs, chunk, cwd):
    """chunk: list of (index, expr); returns {index: output}"""
    out = {}
    todo = list(chunk)
    while todo:
        text = PRELUDE + '\n'.join(defs) + '\n'
        for i, e in todo:
            text += '(display "@@%d@")\n(write (safe (lambda () %s)))\n(display "@@")(newline)\n' % (i, e)
        rc, so, se = run_script(exe, text, cwd)
        done = set()
        for m in re.finditer(r'@@(\d+)@(.*?)@@\n', so, re.S):
            out[int(m.group(1))] = re.sub(r'\[symtbl\][^\n]*\n', '', m.group(2))
            done.add(int(m.group(1)))
        rest = [(i, e) for i, e in todo if i not in done]
        if not rest:
            break
        # the first one not done is the culprit
        i, e = rest[0]
        out[i] = 'HANG' if rc == 'timeout' else 'CRASH rc=%s %s' % (rc, se.strip().splitlines()[-1][:200] if se.strip() else '')
        todo = rest[1:]
    return out


def run_cases(exe, G, scratch, jobs=8, chunk=150):
    """returns list of (expr, want, got, tag, ok)"""
    idx = list(enumerate(c[0] for c in G.cases))
    chunks = [idx[i:i + chunk] for i in range(0, len(idx), chunk)]
    got = {}

    def go(ch):
        d = tempfile.mkdtemp(dir=scratch)
        try:
            return run_chunk(exe, G.defs, ch, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(go, chunks):
            got.update(r)

    def goprog(p):
        d = tempfile.mkdtemp(dir=scratch)
        try:
            return run_script(exe, p[1], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(jobs) as ex:
        pr = list(ex.map(goprog, G.prog))
    res = []
    for i, (e, want, tag) in enumerate(G.cases):
        g = got.get(i, 'NO OUTPUT')
        ok = want(g) if callable(want) else g == want
        res.append((e, want if not callable(want) else getattr(want, 'text', 'predicate'), g, tag, bool(ok)))
    for (name, text, want), (rc, so, se) in zip(G.prog, pr):
        g = so if rc == 0 else 'rc=%s\n%s' % (rc, so)
        ok = want(g) if callable(want) else g == want
        res.append((text, want if not callable(want) else getattr(want, 'text', 'predicate'), g, name, bool(ok)))
    return res
