import z3
UMAX = 1 << 62


class Spine:
    """a known chain of SCM_List cells: node j is fn(j), lo<=j<hi (hi None: unbounded by definition)"""
    __slots__ = ('fn', 'decl', 'pre', 'hi', 'nextdecl', 'idx', 'name', 'last', 'data', 'inv', 'dot', 'nkey', 'fields')

    def __init__(self, name, decl, pre, hi, nextdecl, last=None, data=None, inv=None, dot=None, nkey='SCM_List.next', fields=None):
        self.name, self.decl, self.pre, self.hi, self.nextdecl, self.last, self.data, self.inv = name, decl, tuple(pre), hi, nextdecl, last, data, inv
        self.dot = dot
        self.nkey = nkey
        self.fields = dict(fields or {})
        if data is not None:
            self.fields['SCM_List.data'] = data
        if dot is not None:
            self.fields['SCM_List.is_dotted'] = dot

    def at(self, t):
        return self.decl(*self.pre, t)

    def match(self, a):
        """index t if a is decl(pre..., t)"""
        if z3.is_app(a) and a.decl().get_id() == self.decl.get_id() and a.num_args() == len(self.pre) + 1:
            for i, p in enumerate(self.pre):
                if a.arg(i).get_id() != p.get_id():
                    return None
            return a.arg(len(self.pre))
        return None


