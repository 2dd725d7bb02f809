from dsl import *
S_ = Specs()
UP, DN = up, down
CMP = {'=?': lambda a, b: a == b, '<?': lambda a, b: a < b, '>?': lambda a, b: a > b, '<=?': lambda a, b: a <= b, '>=?': lambda a, b: a >= b}


def cmp_spec(op, ci):
    def ok(c):
        a, b = c.char('a'), c.char('b')
        c.call(a, b)
        f = (lambda x: UP(x)) if ci else (lambda x: x)
        c.post(lambda r: [('ordering of the character codes', r.is_bool(CMP[op](f(a.v), f(b.v))))])

    def bad(c):
        a, b = c.any('a'), c.any('b')
        c.assume(Not(And(c.is_(a.p, 'CHAR'), c.is_(b.p, 'CHAR'))))
        c.call(a, b)
        c.err()
    return ok, bad


for ci in (False, True):
    for op in CMP:
        nm = 'char%s%s' % ('-ci' if ci else '', op)
        ok, bad = cmp_spec(op, ci)
        S_.add(nm, 'compares codes' + (' ignoring case' if ci else ''), ok)
        S_.add(nm, 'non-character is an error', bad)

CLS = {'char-alphabetic?': is_alpha, 'char-numeric?': is_digit, 'char-whitespace?': is_space, 'char-upper-case?': is_upper, 'char-lower-case?': is_lower}


def cls_spec(pred):
    def ok(c):
        a = c.char('a')
        c.call(a)
        c.post(lambda r: [('classification', r.is_bool(pred(a.v)))])
    return ok


def bad1(*ts):
    def f(c):
        c.call(c.not_('a', *ts))
        c.err()
    return f


for nm, pred in CLS.items():
    S_.add(nm, 'ASCII class', cls_spec(pred))
    S_.add(nm, 'non-character is an error', bad1('CHAR'))


@S_('char-upcase', 'maps a-z to A-Z and fixes everything else')
def _(c):
    a = c.char('a')
    c.call(a)
    c.post(lambda r: [('upcase', r.is_char(UP(a.v)))])


@S_('char-downcase', 'maps A-Z to a-z and fixes everything else')
def _(c):
    a = c.char('a')
    c.call(a)
    c.post(lambda r: [('downcase', r.is_char(DN(a.v)))])


@S_('char->integer', 'code 0..255')
def _(c):
    a = c.char('a')
    c.call(a)
    c.post(lambda r: [('code', r.is_num(a.v))])


@S_('integer->char', 'inverse of char->integer on 0..255')
def _(c):
    a = c.num('a')
    c.assume(a.v >= 0, a.v <= 255)
    c.call(a)
    c.post(lambda r: [('character', r.is_char(a.v))])


@S_('integer->char', 'outside 0..255 is an error')
def _(c):
    a = c.num('a')
    c.assume(Or(a.v < 0, a.v > 255))
    c.call(a)
    c.err()


for nm, t in (('char-upcase', 'CHAR'), ('char-downcase', 'CHAR'), ('char->integer', 'CHAR'), ('integer->char', 'NUM')):
    S_.add(nm, 'ill-typed argument is an error', bad1(t))


def conform(G):
    import conform as cf
    r = G.rng
    up = lambda k: k - 32 if 97 <= k <= 122 else k
    dn = lambda k: k + 32 if 65 <= k <= 90 else k
    cls = {'char-alphabetic?': lambda k: 65 <= k <= 90 or 97 <= k <= 122, 'char-numeric?': lambda k: 48 <= k <= 57,
           'char-whitespace?': lambda k: k == 32 or 9 <= k <= 13, 'char-upper-case?': lambda k: 65 <= k <= 90, 'char-lower-case?': lambda k: 97 <= k <= 122}
    for k in range(256):
        G.case('(char->integer (integer->char %d))' % k, str(k))
        G.case('(char->integer (char-upcase (integer->char %d)))' % k, str(up(k)))
        G.case('(char->integer (char-downcase (integer->char %d)))' % k, str(dn(k)))
        for nm, f in cls.items():
            G.case('(%s (integer->char %d))' % (nm, k), '#t' if f(k) else '#f')
    edge = [0, 1, 47, 48, 57, 58, 64, 65, 66, 90, 91, 96, 97, 98, 122, 123, 127, 128, 129, 191, 192, 254, 255] + [h for h in G.hint if 0 <= h < 256]
    pairs = [(a, b) for a in edge for b in edge] if G.thorough else [(r.choice(edge), r.choice(edge)) for _ in range(120)] + [(a, a) for a in edge]
    for a, b in pairs + [(65, 97), (97, 65), (90, 122), (122, 90), (91, 123), (64, 96), (65, 98), (98, 65), (200, 65), (65, 200), (97, 66), (95, 97), (95, 65)]:
        for op, f in CMP.items():
            G.case('(char%s (integer->char %d) (integer->char %d))' % (op, a, b), '#t' if f(a, b) else '#f')
            G.case('(char-ci%s (integer->char %d) (integer->char %d))' % (op, a, b), '#t' if any([f(up(a), up(b))]) else '#f')
    for b in (-1, 256, 257, 1 << 32, (1 << 32) + 65, -(1 << 62), *[h for h in G.hint if not 0 <= h < 256]):
        G.err('(integer->char %d)' % b)
    for bad in ('5', '"a"', "'a", '#t', "'()", '(list #\\a)'):
        for e in ('(char->integer %s)', '(char-upcase %s)', '(char-downcase %s)', '(char-alphabetic? %s)', '(char-numeric? %s)', '(char-whitespace? %s)', '(char=? %s #\\a)', '(char<? #\\a %s)', '(char-ci=? #\\a %s)', '(char-ci>? %s #\\a)', '(char>=? %s #\\a)', '(char<=? #\\b %s)'):
            G.err(e % bad)
    for bad in ('#\\a', '"a"', "'a", '1.5'):
        G.err('(integer->char %s)' % bad)
