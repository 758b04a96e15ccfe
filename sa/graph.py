"""Call graph over the MIR: every function mentioned (called, passed as a value, captured) from a set of roots."""


def consts(x, out):
    """all function items inside an operand, rvalue or constant"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'fn' and isinstance(x[1], int):
            out.append(x[1])
            return
        for y in x:
            consts(y, out)


def mentions(db, fn):
    """[(key or None, line, description)] of everything fn may call"""
    out = []

    def item(i, line):
        fd = db.fndefs[i]
        k = fd.get('inst')
        out.append((k if k in db.fns else None, line, fd.get('def') or '?'))

    def typ(i, line):
        t = db.ty(i)
        if t['k'] == 'fndef' and 'f' in t:
            item(t['f'], line)
        elif t['k'] == 'closure':
            c = db.callables.get(i) or {}
            for m in ('fn', 'mut', 'once'):
                if c.get(m) in db.fns:
                    out.append((c[m], line, t.get('name', 'closure')))
                    break
    for i in fn.locals:
        typ(i, fn.line)
    for st, t in fn.blocks:
        for s in st:
            fs = []
            consts(s[2:3] if s[0] == '=' else [], fs)
            for i in fs:
                item(i, s[3])
            if s[0] == '=' and s[2][0] == 'reify':
                item(s[2][1], s[3])
        if t[0] == 'call':
            fs = []
            consts(t[1], fs)
            consts(t[2], fs)
            for i in fs:
                item(i, t[5])
            if t[1][0] != 'k':
                out.append((None, t[5], 'call through a value'))
        elif t[0] == 'drop' and t[3] is not None:
            out.append((None, fn.line, 'drop:%s' % db.tystr(t[3])))
    return out


class Reach:
    def __init__(self, db, roots, stop=lambda fn: False):
        """everything reachable from the functions in roots; a function for which stop holds is a leaf"""
        self.db = db
        self.parent = {r.key: None for r in roots}
        self.open = []                  # (function, line, what) that could not be resolved
        todo = list(self.parent)
        while todo:
            f = db.fns[todo.pop()]
            if not f.has_body or stop(f):
                continue
            for k, line, what in mentions(db, f):
                if k is None:
                    self.open.append((f, line, what))
                elif k not in self.parent:
                    self.parent[k] = (f.key, line)
                    todo.append(k)

    def fns(self):
        return [self.db.fns[k] for k in self.parent]

    def path(self, key):
        """root -> ... -> key as strings"""
        out = []
        while key is not None:
            f = self.db.fns[key]
            p = self.parent[key]
            out.append('%s (%s:%s)' % (f.path, f.file, p[1] if p else f.line))
            key = p[0] if p else None
        return out[::-1]
