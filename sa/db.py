"""Program database: loads the MIR dumps written by the driver and indexes them."""
import json, re, os


def strip_generics(p):
    """Remove ::<...> and <...> generic argument lists (but keep the <T as Trait> head)."""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            depth = 1
            i += 3
            while depth and i < len(p):
                if p[i] == '<':
                    depth += 1
                elif p[i] == '>' and p[i - 1] != '-':
                    depth -= 1
                i += 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def head(t):
    """Head of a type string: 'alloc::vec::Vec<T, A>' -> 'Vec', '&'a mut [T]' -> '&mut []'."""
    t = t.strip()
    pre = ''
    while t.startswith('&'):
        t = t[1:]
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
        if t.startswith('mut '):
            t = t[4:]
            pre += '&mut '
        else:
            pre += '&'
    if t.startswith('['):
        return pre + '[]'
    if t.startswith('('):
        return pre + '()'
    if t.startswith('dyn '):
        return pre + 'dyn'
    t = t.split('<')[0]
    return pre + t.split('::')[-1]


class Fn:
    __slots__ = ('key', 'path', 'name', 'krate', 'kind', 'intrinsic', 'args', 'method', 'implfor',
                 'trait', 'traitref', 'provided', 'file', 'line', 'vis', 'nargs', 'locals', 'blocks',
                 'vars', 'spread', 'mkey', '_loops', '_live', '_borrowed', 'crate_dump', '_preds')

    def __init__(self, d):
        for k in self.__slots__:
            if not k.startswith('_'):
                setattr(self, k, d.get(k))
        self._loops = None
        self._live = None
        self._borrowed = None
        self._preds = None
        if self.trait and self.implfor:
            self.mkey = '%s|%s|%s' % (head(self.implfor), self.trait.split('::')[-1], self.method)
        elif self.trait:
            self.mkey = '%s::%s' % (self.trait.split('::')[-1], self.method)
        else:
            p = strip_generics(self.path)
            self.mkey = p

    @property
    def has_body(self):
        return self.blocks is not None

    def succs(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    @property
    def loops(self):
        """Targets of back edges (loop headers)."""
        if self._loops is None:
            color = {}
            hdr = set()
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 1:
                        hdr.add(s)
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._loops = hdr
        return self._loops

    def _uses(self, x, use, borrow):
        """collect locals used in an operand/place/rvalue json"""

    @property
    def borrowed(self):
        if self._borrowed is None:
            b = set()
            for st, t in self.blocks:
                for s in st:
                    if s[0] == '=' and s[2][0] in ('ref', 'addr'):
                        pl = s[2][1]
                        if '*' not in pl[1]:
                            b.add(pl[0])
            self._borrowed = b
        return self._borrowed

    @property
    def live(self):
        """live-in set of locals per block (borrowed locals are treated as always live)."""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            for i, (st, t) in enumerate(self.blocks):
                u, d = use[i], dfn[i]

                def uplace(pl):
                    if pl[0] not in d:
                        u.add(pl[0])
                    for e in pl[1]:
                        if isinstance(e, (list, tuple)) and e[0] == 'i' and e[1] not in d:
                            u.add(e[1])

                def uop(o):
                    if o[0] in ('cp', 'mv'):
                        uplace(o[1])

                def urv(r):
                    k = r[0]
                    if k in ('use', 'repeat'):
                        uop(r[1])
                    elif k in ('ref', 'addr', 'discr', 'len'):
                        uplace(r[1])
                    elif k in ('bin', 'cbin'):
                        uop(r[2]); uop(r[3])
                    elif k == 'un':
                        uop(r[2])
                    elif k == 'cast':
                        uop(r[2])
                    elif k == 'agg':
                        for o in r[2]:
                            uop(o)

                def wplace(pl):
                    if not pl[1]:
                        d.add(pl[0])
                    else:
                        uplace(pl)
                for s in st:
                    if s[0] == '=':
                        urv(s[2])
                        wplace(s[1])
                    elif s[0] == 'setd':
                        uplace(s[1])
                    elif s[0] == 'dead':
                        d.add(s[1])
                k = t[0]
                if k == 'switch':
                    uop(t[1])
                elif k == 'call':
                    uop(t[1])
                    for o in t[2]:
                        uop(o)
                    wplace(t[3])
                elif k == 'assert':
                    uop(t[1])
                elif k == 'ret':
                    if 0 not in d:
                        u.add(0)
            livein = [set() for _ in range(n)]
            changed = True
            while changed:
                changed = False
                for i in range(n - 1, -1, -1):
                    out = set()
                    for s in self.succs(i):
                        out |= livein[s]
                    new = use[i] | (out - dfn[i])
                    if new != livein[i]:
                        livein[i] = new
                        changed = True
            self._live = livein
        return self._live


class DB:
    def __init__(self):
        self.fns = {}
        self.types = []
        self.tyidx = {}
        self.fndefs = []
        self.iters = {}
        self.callables = {}
        self.consts = []
        self.roots = []
        self.statics = []
        self.entries = {}

    def load(self, path):
        d = json.load(open(path))
        base = os.path.basename(path)
        # map types
        tmap = {}
        new = []
        for i, t in enumerate(d['types']):
            if t is None:
                t = {'s': '?', 'k': 'other'}
            s = t['s']
            if t['k'] == 'fndef':
                s = s + '#%s#%d' % (base, i)
            elif t['k'] == 'closure':
                # distinguish closures by name
                s = s + '#' + t.get('name', '')
            if s not in self.tyidx:
                self.tyidx[s] = len(self.types)
                self.types.append(None)
                new.append((i, self.tyidx[s]))
            tmap[i] = self.tyidx[s]
        fbase = len(self.fndefs)

        def T(x):
            return tmap[x]

        def A(args):
            return [T(a) if isinstance(a, int) else a for a in args]
        for i, j in new:
            t = dict(d['types'][i] or {'s': '?', 'k': 'other'})
            for f in ('to', 'of'):
                if f in t:
                    t[f] = T(t[f])
            for f in ('elems', 'upvars'):
                if f in t:
                    t[f] = [T(x) for x in t[f]]
            if 'args' in t:
                t['args'] = A(t['args'])
            if 'variants' in t:
                t['variants'] = [(v[0], int(v[1]), [(f[0], T(f[1])) for f in v[2]]) for v in t['variants']]
            if 'f' in t:
                t['f'] += fbase
            self.types[j] = t
        for fd in d['fndefs']:
            fd = dict(fd)
            fd['args'] = A(fd['args'])
            self.fndefs.append(fd)

        def const(v):
            k = v[0]
            if k == 'fn':
                return ['fn', v[1] + fbase]
            if k in ('tup', 'arr', 'clo'):
                return [k, [const(x) for x in v[1]]]
            if k == 'adt':
                return ['adt', v[1], [const(x) for x in v[2]]]
            if k == 'ref':
                return ['ref', const(v[1])]
            if k == 'int':
                return ['int', int(v[1])]
            return v

        def place(p):
            return [p[0], [['f', e[1], T(e[2])] if isinstance(e, (list, tuple)) and e[0] == 'f' else e for e in p[1]]]

        def op(o):
            if o[0] in ('cp', 'mv'):
                return [o[0], place(o[1])]
            if o[0] == 'k':
                return ['k', T(o[1]), const(o[2])]
            return o

        def rv(r):
            k = r[0]
            if k == 'use':
                return ['use', op(r[1])]
            if k in ('ref', 'addr'):
                return [k, place(r[1]), r[2]]
            if k in ('discr', 'len'):
                return [k, place(r[1])]
            if k in ('bin', 'cbin'):
                return [k, r[1], op(r[2]), op(r[3])]
            if k == 'un':
                return [k, r[1], op(r[2])]
            if k == 'cast':
                return [k, r[1], op(r[2]), T(r[3])]
            if k == 'reify':
                return [k, r[1] + fbase, T(r[2])]
            if k == 'repeat':
                return [k, op(r[1]), r[2]]
            if k == 'agg':
                kd = r[1]
                if kd[0] in ('adt', 'closure', 'array', 'rawptr'):
                    kd = [kd[0], T(kd[1])] + kd[2:]
                return [k, kd, [op(o) for o in r[2]]]
            return r

        for f in d['fns']:
            old = self.fns.get(f['key'])
            if old is not None and (old.has_body or 'blocks' not in f):
                continue
            f = dict(f)
            f['args'] = A(f['args'])
            f['crate_dump'] = base
            if 'blocks' in f:
                f['locals'] = [T(x) for x in f['locals']]
                bl = []
                for st, t in f['blocks']:
                    ns = []
                    for s in st:
                        if s[0] == '=':
                            ns.append(['=', place(s[1]), rv(s[2]), s[3]])
                        elif s[0] == 'setd':
                            ns.append(['setd', place(s[1]), s[2]])
                        else:
                            ns.append(s)
                    k = t[0]
                    if k == 'switch':
                        t = ['switch', op(t[1]), [(int(a), b) for a, b in t[2]], t[3], T(t[4])]
                    elif k == 'drop':
                        t = ['drop', place(t[1]), t[2], T(t[3]) if t[3] is not None else None]
                    elif k == 'call':
                        t = ['call', op(t[1]), [op(x) for x in t[2]], place(t[3]), t[4], t[5], T(t[6])]
                    elif k == 'assert':
                        t = ['assert', op(t[1]), t[2], t[3], [op(x) for x in t[4]], t[5], t[6]]
                    bl.append((ns, t))
                f['blocks'] = bl
            self.fns[f['key']] = Fn(f)
        for k, v in d['iters'].items():
            v = dict(v)
            for x in ('item', 'into_iter_ty'):
                if x in v:
                    v[x] = T(v[x])
            self.iters.setdefault(T(int(k)), v)
        for k, v in d['callables'].items():
            v = dict(v)
            if 'fndef' in v:
                v['fndef'] += fbase
            self.callables.setdefault(T(int(k)), v)
        for c in d['consts']:
            c = dict(c)
            c['ty'] = T(c['ty'])
            c['v'] = const(c['v'])
            c['crate'] = d['crate']
            self.consts.append(c)
        self.roots += [(base, r) for r in d['roots']]
        self.statics += [(base, s) for s in d['statics']]
        if 'entry' in d:
            self.entries[base] = d['entry']

    # ---- lookups -------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]['s']

    def find_ty(self, s):
        for i, t in enumerate(self.types):
            if t and t['s'] == s:
                return i
        return None

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def method(self, self_head, method, trait=None, krate='chanoma', body=True):
        """local impl method by the head of the Self type"""
        r = []
        for f in self.fns.values():
            if f.krate != krate or f.method != method or not f.implfor:
                continue
            if head(f.implfor) != self_head:
                continue
            if trait is None and f.trait:
                continue
            if trait is not None and (not f.trait or f.trait.split('::')[-1] != trait):
                continue
            if body and not f.has_body:
                continue
            r.append(f)
        return r
