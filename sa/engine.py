"""Abstract interpreter over monomorphic MIR.

A forward dataflow analysis with a disjunctive (powerset) domain.  One abstract state holds one or
two analysed functions ("threads") that share the same abstract inputs.  Strings, vectors and slices
are words over a small alphabet of atoms; characters carry interval classes; integers are linear
forms; everything the analysis does not look into is an uninterpreted term.  At loop headers states
are put in a canonical form (registers for common prefixes, anonymous names for symbols, affine
promotion of drifting integers) so that the set of states is finite and the analysis reaches a
fixpoint: the result then covers every input, of every length.

Nothing is executed and no solver is called: branch feasibility is decided by interval classes and a
table of already assumed atomic facts.

Values (all hashable tuples)
  ('i', lin)            integer; lin = (const, ((atom, coef), ...))
  ('b', bool)           boolean
  ('c', chterm)         character; chterm = ('k', cp) or a symbolic term
  ('tup', (..))         tuple / unit
  ('adt', var, (..))    struct or enum value
  ('clo', ty, (..))     closure
  ('fn', fndef)         function item
  ('ref', v)            shared reference (snapshot of the referent)
  ('ptr', cell, path)   mutable reference / raw pointer / Box
  ('str', atoms)        str or String
  ('seq', atoms)        array, slice, Vec
  ('map', kind, atoms)  HashMap/BTreeMap/HashSet/BTreeSet as an insertion history of ('e', (k, v))
  ('it', kind, ...)     native iterator
  ('sym', term, ty)     symbolic value of a type, expanded on demand
  ('top', why)          unknown
Atoms
  ('e', v)              one element
  ('sq', src, ety, lo, hi)   elements lo..hi (lin) of the opaque sequence src
  ('sg', sid, sval, n)  n unknown elements (summary), see segmentation mode
"""
import sys
from .db import head, strip_generics
from .witness import refutes

sys.setrecursionlimit(20000)

MAXCP = 0x10FFFF
# applications whose length follows from their arguments
DERIVED = ('set', 'sorted', 'backwards', 'plus', 'minus', 'replace', 'replacen', 'join', 'concat', 'repeat', 'reverse', 'trim_start',
           'trim_end', 'strip_prefix', 'strip_suffix')
SCALAR = ((0, 0xD7FF), (0xE000, MAXCP))
TRUE = ('b', True)
FALSE = ('b', False)
UNIT = ('tup', ())


WRAPPERS = ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'UnsafeCell', 'Unique', 'NonNull', 'Box')


class Unsup(Exception):
    """The construct is outside what the analysis models: the path is undecided."""


class Fork(Exception):
    def __init__(self, alts, stream=False):
        self.alts = alts          # [(label, fn(state))]
        self.stream = stream


class PanicX(Exception):
    def __init__(self, msg):
        self.msg = msg


class Infeasible(Exception):
    pass


# --- linear integers -------------------------------------------------------------------------
def lin(c):
    return (c, ())


def latom(a):
    return (0, ((a, 1),))


def ladd(a, b, s=1):
    d = dict(a[1])
    for k, v in b[1]:
        n = d.get(k, 0) + s * v
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return (a[0] + s * b[0], tuple(sorted(d.items(), key=repr)))


def lmul(a, k):
    if k == 0:
        return lin(0)
    return (a[0] * k, tuple((x, v * k) for x, v in a[1]))


def I(n):
    return ('i', (n, ()))


# --- character classes -------------------------------------------------------------------------
def cls_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def cls_not(a):
    out = []
    p = 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return cls_and(tuple(out), SCALAR)


CASES = {'asciilower': lambda w: ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in w),
         'asciiupper': lambda w: ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in w)}


def letters_swapped(a):
    """the other case of the letters in a class"""
    out = [(x + 32, y + 32) for x, y in cls_and(a, ((65, 90),))]
    out += [(x - 32, y - 32) for x, y in cls_and(a, ((97, 122),))]
    return tuple(sorted(out))


def cls_of(it):
    out = []
    for c in sorted(it):
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return tuple(out)


def cls_size(a):
    return sum(h - l + 1 for l, h in a)


def cls_has(a, c):
    return any(l <= c <= h for l, h in a)


class Store:
    """Atomic facts assumed on the current path."""
    __slots__ = ('cls', 'alias', 'neq', 'preds', 'var', 'ge', 'isub', 'ssub', 'forgot')

    def __init__(self):
        self.cls = {}      # chterm -> class
        self.alias = {}    # term -> term  (chars and opaque equal terms)
        self.neq = set()   # frozenset of two terms
        self.preds = {}    # predicate term -> bool
        self.var = {}      # sym term -> variant
        self.ge = set()    # lins known >= 0
        self.isub = {}     # int atom -> lin
        self.ssub = {}     # opaque sequence source -> atoms
        self.forgot = frozenset()

    def copy(self):
        s = Store()
        s.cls = dict(self.cls)
        s.alias = dict(self.alias)
        s.neq = set(self.neq)
        s.preds = dict(self.preds)
        s.var = dict(self.var)
        s.ge = set(self.ge)
        s.isub = dict(self.isub)
        s.ssub = dict(self.ssub)
        s.forgot = self.forgot
        return s


class Frame:
    __slots__ = ('kind', 'fn', 'bb', 'si', 'loc', 'dest', 'target', 'data', 'inbox', 'line', 'sym')

    def copy(self):
        f = Frame()
        f.kind = self.kind
        f.fn = self.fn
        f.bb = self.bb
        f.si = self.si
        f.loc = dict(self.loc) if self.loc is not None else None
        f.dest = self.dest
        f.target = self.target
        f.data = self.data
        f.inbox = self.inbox
        f.line = self.line
        f.sym = self.sym
        return f


class Thread:
    __slots__ = ('frames', 'result', 'name', 'ev', 'cnt')

    def copy(self):
        t = Thread()
        t.frames = [f.copy() for f in self.frames]
        t.result = self.result
        t.name = self.name
        t.ev = self.ev
        t.cnt = self.cnt
        return t


class State:
    __slots__ = ('th', 'cur', 'heap', 'nh', 'st', 'inexact', 'hist', 'fresh', 'extra', 'steps', 'pin')

    def copy(self):
        s = State()
        s.th = [t.copy() for t in self.th]
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.nh = self.nh
        s.st = self.st.copy()
        s.inexact = self.inexact
        s.hist = self.hist
        s.fresh = self.fresh
        s.extra = self.extra
        s.steps = self.steps
        s.pin = self.pin
        return s

    def note(self, why):
        if len(self.inexact) < 6:
            self.inexact = self.inexact | {why}

    def newname(self):
        self.fresh += 1
        return self.fresh


class Ctx:
    """One analysis: program, cuts, limits."""

    trims = False       # has a text been trimmed?
    depth = 0

    def __init__(self, db, models, cuts=None, max_states=20000, max_steps=4000000, widen_after=2):
        self.db = db
        self.models = models
        self.cuts = cuts or {}
        self.limit = None         # longest input sequences looked at (refutation pass)
        self.delay = 0            # header visits before states are merged (refutation pass)
        self.forget = {}          # fields of structures left out of the comparison
        self.hash_rev = False     # iterate hash tables backwards
        self.max_states = max_states
        self.max_steps = max_steps
        self.widen_after = widen_after
        self.S = None
        self.stats = {'states': 0, 'steps': 0, 'forks': 0, 'headers': 0, 'fns': set(), 'leaves': set(),
                      'undecided': {}, 'asserts': 0}
        self.collapse = ()        # type-name fragments whose vectors are not tracked
        self.own = ('chanoma', 'output', 'harness')     # crates whose functions are never modelled
        self.skolem = None        # segmentation mode: {src: 'K'}
        self.no_eq_fork = False

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.db.types[i]

    def tystr(self, i):
        return self.db.types[i]['s']

    def is_name(self, i, *names):
        t = self.ty(i)
        return t['k'] == 'adt' and t['name'].split('::')[-1] in names

    def variant_index(self, ty, name):
        for i, v in enumerate(self.ty(ty)['variants']):
            if v[0] == name:
                return i
        raise Unsup('no variant %s' % name)

    # ------------------------------------------------------------------ symbols
    def mk_sym(self, term, ty):
        t = self.ty(ty)
        k = t['k']
        if k == 'ref':
            if t['mut']:
                raise Unsup('symbolic &mut')
            return ('ref', self.mk_sym(term, t['to']))
        if k == 'char':
            return ('c', term)
        if k in ('int', 'uint'):
            a = ('t', term)
            if k == 'uint':
                self.S.st.ge.add(latom(a))
            return ('i', latom(a))
        if k == 'str':
            return ('str', (self.sq(term, self.chty()),))
        if k == 'slice':
            return ('seq', (self.sq(term, t['of']),))
        if k == 'tuple':
            return ('tup', tuple(self.mk_sym(('f', term, i), x) for i, x in enumerate(t['elems'])))
        if k == 'adt':
            n = t['name'].split('::')[-1]
            if n in ('String', 'PathBuf', 'Path', 'OsString', 'OsStr'):
                return ('str', (self.sq(term, self.chty()),))
            if n == 'Vec':
                return ('seq', (self.sq(term, t['args'][0]),))
            if n == 'Box':
                # a boxed symbolic value behaves like the value itself
                return self.mk_sym(term, t['args'][0]) if isinstance(t['args'][0], int) else ('sym', term, ty)
            kinds = {'HashMap': 'hmap', 'BTreeMap': 'bmap', 'HashSet': 'hset', 'BTreeSet': 'bset'}
            if n in kinds:
                v = t['args'][1] if n.endswith('Map') else self.unit_ty()
                ety = ('kv', t['args'][0], v)
                return ('map', kinds[n], (self.sq(term, ety),))
        return ('sym', term, ty)

    def unit_ty(self):
        return None

    def chty(self):
        i = self.db.tyidx.get('char')
        return i

    def sq(self, term, ety):
        return ('sq', term, ety, lin(0), latom(('len', term)))

    def elem(self, src, ety, pos):
        if isinstance(ety, tuple):        # key/value entries of an opaque map
            p = self.rl(pos)
            k = self.mk_sym(('el', ('keys', src), p), ety[1])
            v = UNIT if ety[2] is None else self.mk_sym(('el', ('vals', src), p), ety[2])
            return ('tup', (k, v))
        return self.mk_sym(('el', src, self.rl(pos)), ety)

    # ------------------------------------------------------------------ resolution
    def fresh(self, t):
        """the term with the names and positions inside it resolved"""
        st = self.S.st
        if t[0] == 'el':
            return ('el', t[1], self.rl(t[2])) if t[2][1] and st.isub else t
        if t[0] == 'get' and t[1] == 'asciicase':
            x = self.rc(t[2])
            if x[0] == 'k':
                return ('k', x[1] ^ 32)
            return x[2] if x[:2] == t[:2] else ('get', 'asciicase', x)
        if t[0] == 'get' and (st.isub or st.alias):
            return tuple(self.rterm(x) for x in t)
        return t

    def rc(self, t):
        """resolve a character/opaque term"""
        al = self.S.st.alias
        seen = 0
        t = self.fresh(t)
        while t in al:
            t = self.fresh(al[t])
            seen += 1
            if seen > 1000:
                raise Unsup('alias cycle')
        return t

    def rl(self, l):
        isub = self.S.st.isub
        for _ in range(200):
            for a, c in l[1]:
                if a[0] == 'len' and a[1][0] == 'app' and a[1][1] in ('set', 'sorted', 'backwards'):
                    n = self.length(self.ratoms(a[1][2][1]))
                    if a[1][1] != 'set' or not n[1] and n[0] < 2:
                        l = ladd((l[0], tuple(x for x in l[1] if x[0] != a)), lmul(n, c))
                        break
                if a[0] == 'u8':
                    r = self.u8len(a[1])
                    if r != ((0, ((a, 1),))):
                        l = ladd((l[0], tuple(x for x in l[1] if x[0] != a)), lmul(r, c))
                        break
                if a in isub:
                    l = ladd((l[0], tuple(x for x in l[1] if x[0] != a)), lmul(isub[a], c))
                    break
            else:
                return l
        raise Unsup('int subst cycle')

    def u8len(self, t):
        """the length of a character in UTF-8"""
        t = self.rc(t)
        sizes = set()
        for lo, hi in self.cls(t):
            for b, n in ((0x7f, 1), (0x7ff, 2), (0xffff, 3), (MAXCP, 4)):
                if lo <= b and hi >= {1: 0, 2: 0x80, 3: 0x800, 4: 0x10000}[n]:
                    sizes.add(n)
        return lin(sizes.pop()) if len(sizes) == 1 else latom(('u8', t))

    def known_len(self, l):
        """the value of a form, byte offsets included, where the facts give it"""
        l = self.rl(l)
        n = l[0]
        for t, k in l[1]:
            x = None
            if t[0] == 'bp':
                i = self.known_len(t[2])
                if i is not None and 0 <= i <= 64:
                    x = self.byte_len(t[1], i)
            elif t[0] == 'm':
                lo, hi = self.trim_bounds(t)
                x = lo if lo == hi else None
            if x is None:
                return None
            n += k * x
        return n

    def deep(self, l):
        """byte offsets at the places the facts give"""
        l = self.rl(l)
        out = (l[0], tuple(x for x in l[1] if x[0][0] != 'bp'))
        for t, k in l[1]:
            if t[0] == 'bp':
                i = self.rl(t[2])
                if i != lin(0):
                    out = ladd(out, lmul(latom(('bp', t[1], i)), k))
        return out

    def byte_len(self, src, n):
        """the bytes the first n characters take, where the facts give it"""
        b = 0
        for i in range(n):
            q = self.rc(('el', src, lin(i)))
            k = ((q[1], q[1]),) if q[0] == 'k' else self.cls(q)
            w = {1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4 for r in k for c in r}
            if len(w) != 1:
                return None
            b += w.pop()
        return b

    def ratoms(self, atoms):
        """resolve substituted opaque sources and drop empty ranges"""
        ss = self.S.st.ssub
        out = []
        for a in atoms:
            if a[0] == 'sq':
                lo, hi = self.rl(a[3]), self.rl(a[4])
                src = a[1]
                if src[0] == 'app' and src[1] == 'repeat' and src not in ss and lo == lin(0) and (
                        hi == latom(('len', src)) or hi == self.rl(latom(('len', src)))):
                    n = self.known_len(src[3][1])
                    if n is not None and n <= 64:
                        out.extend(self.ratoms(src[2][1] * max(0, n)))
                        continue
                if src in ss:
                    sub = self.ratoms(ss[src])
                    if lo == lin(0) and hi == latom(('len', src)) or hi == self.rl(latom(('len', src))):
                        if lo == lin(0):
                            out.extend(sub)
                            continue
                        if not lo[1]:
                            out.extend(self.drop_front(sub, lo[0]))
                            continue
                    if not lo[1] and not hi[1]:
                        out.extend(self.slice_atoms(sub, lo[0], hi[0]))
                        continue
                    raise Unsup('range of substituted sequence')
                if lo == hi:
                    continue
                out.append(('sq', src, a[2], lo, hi))
            elif a[0] == 'sg':
                n = self.rl(a[3])
                if n == lin(0):
                    continue
                out.append(('sg', a[1], a[2], n))
            else:
                out.append(a)
        return tuple(out)

    def drop_front(self, atoms, n):
        atoms = tuple(atoms)
        while n > 0:
            if not atoms:
                raise Infeasible()
            a = atoms[0]
            if a[0] == 'e':
                atoms = atoms[1:]
                n -= 1
            elif a[0] == 'sq':
                return (('sq', a[1], a[2], ladd(a[3], lin(n)), a[4]),) + atoms[1:]
            else:
                raise Unsup('drop_front')
        return atoms

    def slice_atoms(self, atoms, lo, hi):
        atoms = self.drop_front(atoms, lo)
        out = []
        n = hi - lo
        for a in atoms:
            if n == 0:
                break
            if a[0] == 'e':
                out.append(a)
                n -= 1
            else:
                raise Unsup('slice_atoms')
        return tuple(out)

    # ------------------------------------------------------------------ integers: decisions
    def bounds(self, l):
        """(lo, hi) of a lin by interval reasoning over known facts"""
        l = self.rl(l)
        if not l[1]:
            return l[0], l[0]
        if any(a[0] in ('bp', 'u8') for a, _ in l[1]):
            lo, hi = self.bounds_plain(l)
            k = self.bytes_to_chars(l, 1)
            if k != l:
                x = self.bounds(k)[0]
                if x is not None and (lo is None or x > lo):
                    lo = x
            k = self.bytes_to_chars(l, -1)
            if k != l:
                y = self.bounds(k)[1]
                if y is not None and (hi is None or y < hi):
                    hi = y
            return lo, hi
        return self.bounds_plain(l)

    def bytes_to_chars(self, l, sign):
        """replace byte offsets by a lower (sign 1) or upper (sign -1) estimate in characters: every
        character takes between 1 and 4 bytes"""
        pos = [(a, c) for a, c in l[1] if a[0] == 'bp']
        out = (l[0], tuple(x for x in l[1] if x[0][0] not in ('bp', 'u8')))
        for a, c in l[1]:
            if a[0] == 'u8':
                out = ladd(out, lin(c if c * sign > 0 else 4 * c))
        up = [[a, c] for a, c in pos if c > 0]
        dn = [[a, -c] for a, c in pos if c < 0]
        for u in up:
            for d in dn:
                if u[0][1] == d[0][1] and u[1] and d[1]:
                    w = ladd(u[0][2], d[0][2], -1)
                    n = min(u[1], d[1])
                    if w == l:
                        return l
                    lo, hi = self.bounds(w)
                    least, most = self.byte_range(u[0], d[0], w)
                    if lo is not None and lo >= 0:
                        f = least if sign > 0 else most
                    elif hi is not None and hi <= 0:
                        f = most if sign > 0 else least
                    else:
                        return l
                    out = ladd(out, lmul(w, n * f))
                    u[1] -= n
                    d[1] -= n
        for a, c in up:
            if c:
                least, most = self.byte_range(a, ('bp', a[1], lin(0)), a[2])
                out = ladd(out, lmul(a[2], (least if sign > 0 else most) * c))
        for a, c in dn:
            if c:
                least, most = self.byte_range(a, ('bp', a[1], lin(0)), a[2])
                out = ladd(out, lmul(a[2], (-most if sign > 0 else -least) * c))
        return out

    def byte_range(self, hi, lo, w):
        """bytes per character between two offsets: known where the characters between them were trimmed off as
        members of a class"""
        if w[0] == 0 and len(w[1]) == 1 and abs(w[1][0][1]) == 1 and w[1][0][0][0] == 'm':
            if w[1][0][1] == -1:
                hi, lo = lo, hi
            m = w[1][0][0]
            seg = m[3]
            if seg[0] == 'sq' and seg[1] == hi[1] and m[2][0] == 'cls' and m[1] in ('back', 'front') and (
                    self.rl(seg[4]) == self.rl(hi[2]) if m[1] == 'back' else self.rl(seg[3]) == self.rl(lo[2])):
                k = m[2][1]
                size = [1 + (c > 0x7f) + (c > 0x7ff) + (c > 0xffff) for c in (k[0][0], k[-1][1])]
                return min(size), max(size)
        if not w[1] and 0 < abs(w[0]) <= 64:
            a = lo[2] if w[0] > 0 else hi[2]
            e = [('el', hi[1], self.rl(ladd(a, lin(i)))) for i in range(abs(w[0]))]
            ks = [self.cls(t) for t in e]
            if all(ks):
                size = [1 + (c > 0x7f) + (c > 0x7ff) + (c > 0xffff) for k in ks for c in (k[0][0], k[-1][1])]
                return min(size), max(size)
        return 1, 4

    def bounds_plain(self, l):
        lo = hi = None
        form = l[1]
        neg = tuple((a, -c) for a, c in form)
        for g in self.S.st.ge:
            g = self.rl(g)
            if g[1] == form:          # form + g0 >= 0  -> l >= l0 - g0
                b = l[0] - g[0]
                lo = b if lo is None else max(lo, b)
            elif g[1] == neg:
                b = l[0] + g[0]
                hi = b if hi is None else min(hi, b)
        if len(form) > 1:
            # sum of atom bounds
            slo, shi = l[0], l[0]
            for a, c in form:
                x, y = self.bounds((0, ((a, 1),)))
                if c < 0:
                    x, y = y, x
                slo = None if slo is None or x is None else slo + c * x
                shi = None if shi is None or y is None else shi + c * y
            if slo is not None:
                lo = slo if lo is None else max(lo, slo)
            if shi is not None:
                hi = shi if hi is None else min(hi, shi)
            # one fact plus the remaining atoms' bounds
            for g in self.S.st.ge:
                g = self.rl(g)
                if len(g[1]) < 2:
                    continue
                r = ladd(l, g, -1)
                if len(r[1]) < len(form) and len(r[1]) <= 2:
                    x, _ = self.bounds_simple(r)
                    if x is not None and (lo is None or x > lo):
                        lo = x
                r = ladd(l, g, 1)
                if len(r[1]) < len(form) and len(r[1]) <= 2:
                    _, y = self.bounds_simple(r)
                    if y is not None and (hi is None or y < hi):
                        hi = y
        elif abs(form[0][1]) != 1:
            a, c = form[0]
            x, y = self.bounds((0, ((a, 1),)))
            if c < 0:
                x, y = y, x
            if x is not None:
                lo = l[0] + c * x if lo is None else max(lo, l[0] + c * x)
            if y is not None:
                hi = l[0] + c * y if hi is None else min(hi, l[0] + c * y)
        else:
            a, c = form[0]
            if a[0] == 'cp':
                k = self.cls(a[1])
                x, y = k[0][0], k[-1][1]
                if c < 0:
                    x, y = -y, -x
                lo = x + l[0] if lo is None else max(lo, x + l[0])
                hi = y + l[0] if hi is None else min(hi, y + l[0])
            elif a[0] == 'm':
                x, y = self.trim_bounds(a)
                if c < 0:
                    x, y = None if y is None else -y, -x
                if x is not None:
                    lo = x + l[0] if lo is None else max(lo, x + l[0])
                if y is not None:
                    hi = y + l[0] if hi is None else min(hi, y + l[0])
            elif a[0] in ('len', 'bp', 'u8'):
                if c > 0:
                    lo = l[0] if lo is None else max(lo, l[0])
                else:
                    hi = l[0] if hi is None else min(hi, l[0])
                if a[0] == 'len' and a[1][0] == 'app' and a[1][1] in ('split', 'rsplit'):
                    if c > 0:                   # at least one part
                        lo = max(lo, l[0] + c)
                    else:
                        hi = min(hi, l[0] + c)
                if a[0] == 'len' and a[1][0] == 'app' and a[1][1] == 'set':
                    x, y = self.bounds(self.length(self.ratoms(a[1][2][1])))
                    x = 1 if x is not None and x >= 1 else 0
                    if c > 0:
                        lo = max(lo, l[0] + x)
                        hi = hi if y is None else l[0] + y if hi is None else min(hi, l[0] + y)
                    else:
                        hi = min(hi, l[0] - x)
                        lo = lo if y is None else l[0] - y if lo is None else max(lo, l[0] - y)
        return lo, hi

    def trim_bounds(self, m):
        """what is known of the characters at the end that is trimmed"""
        if m[2][0] != 'cls' or self.depth > 1:
            return 0, None
        self.depth += 1
        try:
            lo, hi = self.trim_count(m)
            if lo == hi:
                return lo, hi
            for g in self.S.st.ge:
                g = self.rl(g)
                k = dict(g[1]).get(m)
                rest = (g[0], tuple(x for x in g[1] if x[0] != m))
                if k == 1 and not rest[1]:
                    lo = max(lo, -rest[0])
                elif k == -1 and not any(t[0] == 'm' for t, _ in rest[1]):
                    x = self.bounds_simple(rest)[1]
                    if x is not None:
                        hi = x if hi is None else min(hi, x)
            return lo, hi
        finally:
            self.depth -= 1

    def trim_count(self, m):
        st, k = self.S.st, m[2][1]
        src, lo, hi = m[3][1], self.rl(m[3][3]), self.rl(m[3][4])
        start = max([0] + [-g[0] for g in st.ge if g[1] == ((m, 1),)])
        for n in range(start, start + 200):
            p = ladd(lo, lin(n)) if m[1] == 'front' else ladd(hi, lin(-1 - n))
            t = self.rc(('el', src, self.rl(p)))
            c = ((t[1], t[1]),) if t[0] == 'k' else st.cls.get(t)
            if c is None:
                return n, None
            x, _ = self.bounds_simple(ladd(ladd(hi, p, -1), lin(-1)) if m[1] == 'front' else ladd(p, lo, -1))
            if x is None or x < 0:
                return n, None
            if cls_and(c, k):
                if cls_and(c, cls_not(k)):
                    return n, None
            else:
                return n, n
        return n, None

    def bounds_simple(self, l):
        slo, shi = l[0], l[0]
        for a, c in l[1]:
            x, y = None, None
            for g in self.S.st.ge:
                g = self.rl(g)
                if g[1] == ((a, 1),):
                    x = -g[0] if x is None else max(x, -g[0])
                elif g[1] == ((a, -1),):
                    y = g[0] if y is None else min(y, g[0])
            if a[0] == 'm':
                p, q = self.trim_bounds(a)
                x = p if x is None else max(x, p)
                y = q if y is None else y if q is None else min(y, q)
            least = 1 if a[0] == 'len' and a[1][0] == 'app' and a[1][1] in ('split', 'rsplit') else 0
            if a[0] == 'len' and (x is None or x < least):
                x = least
            if c < 0:
                x, y = y, x
            slo = None if slo is None or x is None else slo + c * x
            shi = None if shi is None or y is None else shi + c * y
        # direct facts on the whole form
        neg = tuple((a, -c) for a, c in l[1])
        for g in self.S.st.ge:
            g = self.rl(g)
            if g[1] == l[1]:
                b = l[0] - g[0]
                slo = b if slo is None else max(slo, b)
            elif g[1] == neg:
                b = l[0] + g[0]
                shi = b if shi is None else min(shi, b)
        return slo, shi

    def ge0(self, l, stream=False):
        """decide l >= 0, forking when unknown"""
        l = self.rl(l)
        if self.trims and any(t[0] == 'bp' for t, _ in l[1]):
            n = self.known_len(l)
            if n is not None:
                return n >= 0
        lo, hi = self.bounds(l)
        if lo is None and len(l[1]) == 1 and l[1][0][0][0] in ('len', 'bp', 'u8') and l[1][0][1] > 0:
            lo = l[0]
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        # characters compared through their code point
        if len(l[1]) == 1 and l[1][0][0][0] == 'cp' and abs(l[1][0][1]) == 1:
            a, c = l[1][0]
            if c == 1:
                k = ((max(0, -l[0]), MAXCP),)
            else:
                k = ((0, l[0]),)
            return self.in_class(a[1], cls_and(k, SCALAR))
        neg = ladd(lin(-1), l, -1)
        if any(a[0] == 'len' and a[1][0] == 'reg' for a, _ in l[1]):
            # a summarised prefix does not remember how its length relates to the rest
            self.S.note('length of a summarised sequence')
        if any(a[0] == 'len' and a[1][0] == 'app' and a[1][1] in DERIVED for a, _ in l[1]):
            self.S.note('length of an application')

        def yes(s):
            self.add_ge(s, l)

        def no(s):
            self.add_ge(s, neg)
        raise Fork([('%s' % show_lin(neg), no), ('%s' % show_lin(l), yes)], stream)

    def add_ge(self, s, l):
        s.st.ge.add(l)
        if len(l[1]) == 0 and l[0] < 0:
            raise Infeasible()
        # a length known to be both >= and <= becomes an equation
        neg = tuple((a, -c) for a, c in l[1])
        for g in list(s.st.ge):
            if g[1] == neg and g[0] == -l[0]:
                # form == -l0
                # an unknown named after others goes first: no name inside it is replaced
                for a, c in sorted(l[1], key=lambda x: x[0][0] != 'm' and 2 or x[0][1] != 'back'):
                    if abs(c) == 1 and a[0] in ('len', 'n', 't', 'K', 'm'):
                        rest = (l[0], tuple(x for x in l[1] if x[0] != a))
                        s.st.isub[a] = lmul(rest, -c)
                        return
        r = self.rl(l)
        if len(r[1]) == 1 and abs(r[1][0][1]) == 1 and r[1][0][0][0] in ('len', 'n', 't', 'K', 'm'):
            a = r[1][0][0]
            lo, hi = self.bounds(latom(a))
            if lo is not None and hi is not None:
                if lo > hi:
                    raise Infeasible()
                if lo == hi:
                    s.st.isub[a] = lin(lo)

    def icmp(self, op, a, b, stream=False):
        if op in ('Lt', 'Gt', 'Le', 'Ge'):
            if op == 'Ge':
                return self.ge0(ladd(a, b, -1), stream)
            if op == 'Gt':
                return self.ge0(ladd(ladd(a, b, -1), lin(-1)), stream)
            if op == 'Le':
                return self.ge0(ladd(b, a, -1), stream)
            return self.ge0(ladd(ladd(b, a, -1), lin(-1)), stream)
        d = self.rl(ladd(a, b, -1))
        if not d[1]:
            r = d[0] == 0
        else:
            lo, hi = self.bounds(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            elif len(d[1]) == 1 and d[1][0][0][0] == 'cp' and abs(d[1][0][1]) == 1:
                v = -d[0] * d[1][0][1]
                r = self.in_class(d[1][0][0][1], ((v, v),) if 0 <= v <= MAXCP else ())
            elif lo is not None and hi is not None and lo == hi == 0:
                r = True
            elif lo == 0:
                r = not self.ge0(ladd(d, lin(-1)), stream)
            elif hi == 0:
                r = self.ge0(d, stream)
            else:
                if not self.ge0(d, stream):
                    r = False
                else:
                    r = not self.ge0(ladd(d, lin(-1)), stream)
        return r if op == 'Eq' else not r

    # ------------------------------------------------------------------ characters: decisions
    def cls(self, t):
        t = self.rc(t)
        if t[0] == 'k':
            return ((t[1], t[1]),)
        if t[:2] == ('get', 'asciicase'):
            return letters_swapped(self.cls(t[2]))
        k = self.S.st.cls.get(t, SCALAR)
        if self.trims and t[0] == 'el' and not self.depth:
            self.depth += 1
            try:
                k = self.trimmed(t, k)
            finally:
                self.depth -= 1
        return k

    def trimmed(self, t, k):
        """what trimming a range of the same text says about one of its characters"""
        st, seen = self.S.st, set()
        for g in list(st.ge) + list(st.isub.items()):
            for x in [y for y, _ in g[1]] if isinstance(g[1], tuple) and isinstance(g[0], int) else (g[0],):
                if x[0] != 'm' or x in seen or x[2][0] != 'cls' or x[3][1] != t[1]:
                    continue
                seen.add(x)
                m, lo, hi = self.rl(latom(x)), self.rl(x[3][3]), self.rl(x[3][4])
                if x[1] == 'front':
                    edge, a, b = ladd(lo, m), lo, ladd(lo, m)
                else:
                    edge, a, b = ladd(ladd(hi, m, -1), lin(-1)), ladd(hi, m, -1), hi
                if self.rl(edge) == self.rl(t[2]):
                    if self.sure(ladd(t[2], lo, -1)) and self.sure(ladd(ladd(hi, t[2], -1), lin(-1))):
                        k = cls_and(k, cls_not(x[2][1]))
                elif m != lin(0) and self.sure(ladd(t[2], a, -1)) and self.sure(ladd(ladd(b, t[2], -1), lin(-1))):
                    k = cls_and(k, x[2][1])
        return k

    def sure(self, l):
        lo, _ = self.bounds(self.rl(l))
        return lo is not None and lo >= 0

    def in_class(self, t, k):
        t = self.rc(t)
        if t[0] == 'k':
            return cls_has(k, t[1])
        c = self.cls(t)
        a = cls_and(c, k)
        if not a:
            return False
        b = cls_and(c, cls_not(k))
        if not b:
            return True
        if t[:2] == ('get', 'asciicase'):
            return self.in_class(t[2], letters_swapped(k))

        def mk(kk):
            def f(s):
                self.set_cls(s, t, kk)
            return f
        raise Fork([('%s in %s' % (show_term(t), show_cls(a)), mk(a)),
                    ('%s not in %s' % (show_term(t), show_cls(k)), mk(b))])

    def set_cls(self, s, t, k):
        while t[:2] == ('get', 'asciicase'):
            t, k = self.rc(t[2]), letters_swapped(k)
        if cls_size(k) == 1:
            s.st.alias[t] = ('k', k[0][0])
            s.st.cls.pop(t, None)
            self.check_neq(s)
        else:
            s.st.cls[t] = k

    def renorm(self, s):
        """after an equation was assumed: the other facts in the new names, and whether they still agree"""
        st = s.st
        for _ in range(6):
            size = len(st.alias), len(st.isub)
            for g in list(st.ge):
                r = self.rl(g)
                if not r[1]:
                    if r[0] < 0:
                        raise Infeasible()
                elif len(r[1]) == 1 and r[1][0][0][0] in ('len', 'n', 't', 'K', 'm'):
                    a = r[1][0][0]
                    lo, hi = self.bounds(latom(a))
                    if lo is not None and hi is not None and lo > hi:
                        raise Infeasible()
                    if lo is not None and lo == hi and a not in st.isub:
                        st.isub[a] = lin(lo)
            for y, x in list(st.alias.items()):
                q = self.inner(y)
                if q == y:
                    continue
                a, b = self.rc(q), self.rc(x)
                if a == b:
                    continue
                if a[0] == 'k' and b[0] == 'k':
                    raise Infeasible()
                if a[0] == 'k':
                    a, b = b, a
                st.alias[a] = b
            for t, k in list(st.cls.items()):
                q = self.rc(self.inner(t))
                if q == t:
                    continue
                del st.cls[t]
                k = cls_and(k, self.cls(q))
                if not k:
                    raise Infeasible()
                if q[0] != 'k':
                    self.set_cls(s, q, k)
            if (len(st.alias), len(st.isub)) == size:
                break
        if self.trims:
            for g in st.ge:
                if any(t[0] == 'bp' for t, _ in g[1]):
                    d = self.deep(g)
                    n = self.known_len(d)
                    if n is None:
                        n = self.bounds(d)[1]
                    if n is not None and n < 0:
                        raise Infeasible()
            for y, x in st.alias.items():
                if y[0] == 'el' and x[0] == 'k' and not cls_has(self.trimmed(y, SCALAR), x[1]):
                    raise Infeasible()
            for y in st.cls:
                if y[0] == 'el' and not self.cls(y):
                    raise Infeasible()
        neq = set()
        for p in st.neq:
            q = frozenset(self.rterm(t) for t in p)
            if len(q) < 2:
                raise Infeasible()
            neq.add(q)
        st.neq = neq
        preds = {}
        for p, v in st.preds.items():
            q = self.rterm(p)
            if preds.setdefault(q, v) != v:
                raise Infeasible()
        st.preds = preds
        var = {}
        for t, v in st.var.items():
            q = self.rterm(t)
            if q in var and var[q] != v:
                a = {v} if isinstance(v, int) else set(v[1])
                b = {var[q]} if isinstance(var[q], int) else set(var[q][1])
                both = tuple(sorted(a & b))
                if not both:
                    raise Infeasible()
                v = both[0] if len(both) == 1 else ('in', both)
            var[q] = v
        st.var = var

    def inner(self, t):
        """the parts of a term in their current names"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'el':
            return ('el', self.rterm(t[1]), self.rl(t[2]))
        return tuple(self.rterm(x) for x in t)

    def assume(self, s, fn):
        size = len(s.st.alias), len(s.st.isub), len(s.st.ssub)
        fn(s)
        if self.trims or (len(s.st.alias), len(s.st.isub), len(s.st.ssub)) != size:
            self.renorm(s)

    def check_neq(self, s):
        old = self.S
        self.S = s
        try:
            for p in s.st.neq:
                p = list(p)
                if len(p) == 1 or self.rc(p[0]) == self.rc(p[1]):
                    raise Infeasible()
        finally:
            self.S = old

    def ch_eq(self, a, b):
        a, b = self.rc(a), self.rc(b)
        if a == b:
            return True
        if a[0] == 'k' and b[0] == 'k':
            return False
        if a[0] == 'k':
            return self.in_class(b, ((a[1], a[1]),))
        if b[0] == 'k':
            return self.in_class(a, ((b[1], b[1]),))
        if a[:2] == b[:2] == ('get', 'asciicase'):
            return self.ch_eq(a[2], b[2])
        k = cls_and(self.cls(a), self.cls(b))
        if not k:
            return False
        for p in self.S.st.neq:
            q = frozenset(self.rc(x) for x in p)
            if q == frozenset((a, b)):
                return False

        def eq(s):
            # keep the older / simpler name
            x, y = sorted((a, b), key=lambda t: (len(repr(t)), repr(t)))
            s.st.alias[y] = x
            s.st.cls.pop(y, None)
            if k != SCALAR:
                self.set_cls(s, x, k)
            self.check_neq(s)

        def ne(s):
            s.st.neq.add(frozenset((a, b)))
        raise Fork([('%s == %s' % (show_term(a), show_term(b)), eq),
                    ('%s != %s' % (show_term(a), show_term(b)), ne)])

    def pred(self, p, exact=True, stream=False):
        """decide an uninterpreted predicate"""
        p = self.rterm(p)
        v = self.S.st.preds.get(p)
        if v is not None:
            return v

        def mk(b):
            def f(s):
                s.st.preds[p] = b
                if not exact:
                    s.note('pred %s' % (p[0],))
            return f
        raise Fork([('%s' % show_term(p), mk(True)), ('not %s' % show_term(p), mk(False))], stream)

    def known_pred(self, p):
        return self.S.st.preds.get(self.rterm(p))

    def rterm(self, t):
        """resolve names inside a term/value"""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'c' and len(t) == 2 and isinstance(t[1], tuple):
            return ('c', self.rc(t[1]))
        if t and t[0] in ('str', 'seq') and len(t) == 2:
            return (t[0], tuple(self.rterm(x) for x in self.ratoms(t[1])))
        if t and t[0] == 'i' and len(t) == 2 and isinstance(t[1], tuple):
            return ('i', self.rl(t[1]))
        r = tuple(self.rterm(x) for x in t)
        return self.rc(r) if r and isinstance(r[0], str) else r

    def variant(self, term, ty):
        """variant of a symbolic enum"""
        term = self.rterm(term)
        cand = self.variants_left(term, ty)
        if len(cand) == 1:
            return cand[0]
        vs = self.ty(ty)['variants']

        def mk(i):
            def f(s):
                s.st.var[term] = i
            return f
        raise Fork([('%s is %s' % (show_term(term), vs[i][0]), mk(i)) for i in cand])

    def variants_left(self, term, ty):
        v = self.S.st.var.get(term)
        if v is None:
            return tuple(range(len(self.ty(ty)['variants'])))
        return (v,) if isinstance(v, int) else v[1]

    def is_variant(self, v, name):
        """is this symbolic enum of the named variant?"""
        term = self.rterm(v[1])
        vs = self.ty(v[2])['variants']
        left = self.variants_left(term, v[2])
        yes = [i for i in left if vs[i][0] == name]
        no = [i for i in left if vs[i][0] != name]
        if not yes or not no:
            return bool(yes)

        def mk(g):
            def f(s):
                s.st.var[term] = g[0] if len(g) == 1 else ('in', tuple(g))
            return f
        raise Fork([('%s is %s' % (show_term(term), name), mk(yes)), ('%s is not %s' % (show_term(term), name), mk(no))])

    def switch_variant(self, v, t):
        """branch on the variant of a symbolic enum: one case per target, not per variant"""
        term = self.rterm(v[1])
        vs = self.ty(v[2])['variants']
        to = dict(t[2])
        groups = {}
        for i in self.variants_left(term, v[2]):
            groups.setdefault(to.get(vs[i][1], t[3]), []).append(i)
        if len(groups) == 1:
            return next(iter(groups))

        def mk(g):
            def f(s):
                s.st.var[term] = g[0] if len(g) == 1 else ('in', tuple(g))
            return f
        raise Fork([('%s is %s' % (show_term(term), '/'.join(vs[i][0] for i in g)), mk(g)) for g in groups.values()])

    # ------------------------------------------------------------------ sequences
    def uncons(self, atoms, stream=True):
        """(value, rest) or None; forks on opaque prefixes"""
        while True:
            atoms = self.ratoms(atoms)
            if not atoms:
                return None
            a = atoms[0]
            if a[0] == 'e':
                return a[1], atoms[1:], False
            if a[0] == 'sq':
                if self.nonempty(a, stream):
                    lo = ladd(a[3], lin(1))
                    return self.elem(a[1], a[2], a[3]), (('sq', a[1], a[2], lo, a[4]),) + atoms[1:], True
                atoms = atoms[1:]
                continue
            if a[0] == 'sg':
                if self.icmp('Gt', a[3], lin(0), True):
                    v = self.seg_elem(a)
                    return v, (('sg', a[1], a[2], ladd(a[3], lin(-1))),) + atoms[1:], True
                atoms = atoms[1:]
                continue
            raise Unsup('uncons %r' % (a[0],))

    def nonempty(self, a, stream=True):
        n = ladd(ladd(a[4], a[3], -1), lin(-1))
        if self.limit is not None:
            lo, hi = self.bounds(self.rl(a[3]))
            if lo is not None and lo >= self.limit:
                # longer inputs are left out: this pass only looks for counterexamples
                self.stats['limited'] = True
                lo, hi = self.bounds(self.rl(n))
                if hi is None or hi >= 0:
                    if lo is not None and lo >= 0:
                        raise Infeasible()
                    self.assume(self.S, lambda s: self.add_ge(s, ladd(lin(-1), n, -1)))
                return False
        r = self.ge0(n, stream)
        self.touch(a)
        return r

    def touch(self, a):
        """reading an opaque sequence whose past was forgotten loses exactness"""
        src = a[1]
        if src in self.S.st.forgot:
            # forward reads beyond the watermark are fine: the watermark is kept in extra
            wm = dict(self.S.extra.get('wm', ())).get(src)
            if wm is not None:
                d = self.rl(ladd(a[3], wm, -1))
                lo, hi = self.bounds(d)
                if lo is not None and lo >= 0:
                    return
            self.S.note('re-read of a forgotten stream')
        if src[0] == 'reg':
            self.S.note('content of a widened sequence')

    def unsnoc(self, atoms, stream=True):
        while True:
            atoms = self.ratoms(atoms)
            if not atoms:
                return None
            a = atoms[-1]
            if a[0] == 'e':
                return a[1], atoms[:-1], False
            if a[0] == 'sq':
                if self.nonempty(a, stream):
                    hi = ladd(a[4], lin(-1))
                    return self.elem(a[1], a[2], hi), atoms[:-1] + (('sq', a[1], a[2], a[3], hi),), True
                atoms = atoms[:-1]
                continue
            if a[0] == 'sg':
                if self.icmp('Gt', a[3], lin(0), True):
                    v = self.seg_elem(a)
                    return v, atoms[:-1] + (('sg', a[1], a[2], ladd(a[3], lin(-1))),), True
                atoms = atoms[:-1]
                continue
            raise Unsup('unsnoc')

    def seg_elem(self, a):
        """an arbitrary member of a summary segment"""
        sval = a[2]
        if sval[0] == 'pick':
            # ('pick', key) with a registered generator
            return self.skolem_gen(sval)
        raise Unsup('segment element')

    def length(self, atoms):
        n = lin(0)
        for a in self.ratoms(atoms):
            if a[0] == 'e':
                n = ladd(n, lin(1))
            elif a[0] == 'sq':
                n = ladd(n, ladd(a[4], a[3], -1))
            elif a[0] == 'sg':
                n = ladd(n, a[3])
            else:
                raise Unsup('length')
        return self.rl(n)

    def index(self, atoms, i):
        """locate element i: returns (before, atom, after) with atom an ('e', v)"""
        i = self.rl(i)
        atoms = self.ratoms(atoms)
        before = []
        rest = i
        for k, a in enumerate(atoms):
            if a[0] == 'e':
                if rest == lin(0):
                    return tuple(before), a, atoms[k + 1:]
                lo, hi = self.bounds(rest)
                if lo is not None and lo >= 1:
                    before.append(a)
                    rest = ladd(rest, lin(-1))
                    continue
                if not self.icmp('Gt', rest, lin(0)):
                    return tuple(before), a, atoms[k + 1:]
                before.append(a)
                rest = ladd(rest, lin(-1))
                continue
            n = ladd(a[4], a[3], -1) if a[0] == 'sq' else a[3]
            if self.icmp('Lt', rest, n):
                if a[0] == 'sq':
                    p = ladd(a[3], rest)
                    self.touch(('sq', a[1], a[2], p, a[4]))
                    v = self.elem(a[1], a[2], p)
                    b = ('sq', a[1], a[2], a[3], p)
                    c = ('sq', a[1], a[2], ladd(p, lin(1)), a[4])
                    return tuple(before) + (b,), ('e', v), (c,) + atoms[k + 1:]
                return tuple(before), a, atoms[k + 1:]     # inside a summary
            before.append(a)
            rest = self.rl(ladd(rest, n, -1))
        return None

    # literal helpers
    def lit(self, s):
        return ('str', tuple(('e', ('c', ('k', ord(c)))) for c in s))

    def lit_of(self, v):
        """python string of a fully known str value, else None"""
        out = []
        for a in self.ratoms(v[1]):
            if a[0] != 'e' or a[1][0] != 'c':
                return None
            t = self.rc(a[1][1])
            if t[0] != 'k':
                return None
            out.append(chr(t[1]))
        return ''.join(out)

    def str_atoms(self, v):
        v = self.strip_ref(v)
        if v[0] == 'c':
            return (('e', v),)
        if v[0] != 'str':
            raise Unsup('not a string: %s' % (v[0],))
        return self.ratoms(v[1])

    def strip_ref(self, v):
        while True:
            if v[0] == 'ref':
                v = v[1]
            elif v[0] == 'ptr':
                v = self.load(v)
            elif v[0] == 'sym':
                e = self.expand(v)
                if e == v:
                    return v
                v = e
            else:
                return v

    # ------------------------------------------------------------------ equality of values
    def eq(self, a, b):
        """decide a == b (forks on atomic questions)"""
        a, b = self.strip_ref(a), self.strip_ref(b)
        if a == b:
            return True
        ka, kb = a[0], b[0]
        if ka == 'c' and kb == 'c':
            return self.ch_eq(a[1], b[1])
        if ka == 'i' and kb == 'i':
            return self.icmp('Eq', a[1], b[1])
        if ka == 'b' and kb == 'b':
            return a[1] == b[1]
        if ka == 'str' and kb == 'str' or ka == 'seq' and kb == 'seq':
            return self.seq_eq(a, b)
        if ka == 'tup' and kb == 'tup' and len(a[1]) == len(b[1]):
            return all(self.eq(x, y) for x, y in zip(a[1], b[1]))
        if ka == 'adt' and kb == 'adt':
            return a[1] == b[1] and all(self.eq(x, y) for x, y in zip(a[2], b[2]))
        if ka == 'sym' and kb == 'adt':
            return self.eq(b, a)
        if ka == 'adt' and kb == 'sym':
            v = self.variant(b[1], b[2])
            if v != a[1]:
                return False
            return self.eq(a, self.open_sym(b, v))
        if ka == 'sym' and kb == 'sym':
            ta, tb = self.rterm(a[1]), self.rterm(b[1])
            if ta == tb:
                return True
            p = frozenset((ta, tb))
            if p in self.S.st.neq:
                return False

            def eq(s):
                x, y = sorted((ta, tb), key=lambda t: (len(repr(t)), repr(t)))
                s.st.alias[y] = x

            def ne(s):
                s.st.neq.add(p)
            raise Fork([('%s == %s' % (show_term(ta), show_term(tb)), eq),
                        ('%s != %s' % (show_term(ta), show_term(tb)), ne)])
        raise Unsup('eq %s %s' % (ka, kb))

    def seq_eq(self, a, b):
        x, y = list(self.ratoms(a[1])), list(self.ratoms(b[1]))
        while x and y and self.atom_same(x[0], y[0]):
            x.pop(0)
            y.pop(0)
        while x and y and self.atom_same(x[-1], y[-1]):
            x.pop()
            y.pop()
        if not x and not y:
            return True
        # element against element
        while x and y and x[0][0] == 'e' and y[0][0] == 'e':
            if not self.eq(x[0][1], y[0][1]):
                return False
            x.pop(0)
            y.pop(0)
        if not x and not y:
            return True
        if not x or not y:
            r = x or y
            if any(q[0] == 'e' for q in r):
                return False
            # opaque remainder equals empty?
            for q in r:
                if self.nonempty(q, False):
                    return False
            return True
        d = ladd(self.length(x), self.length(y), -1) if all(q[0] in ('e', 'sq') for q in x + y) else lin(0)
        lo, hi = self.bounds(d)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        # one opaque whole source against a fully known word
        for p, q in ((x, y), (y, x)):
            if len(p) == 1 and p[0][0] == 'sq' and all(e[0] == 'e' for e in q):
                return self.src_is(p[0], tuple(q))
        if len(x) == 1 and len(y) == 1 and x[0][0] == 'sq' and y[0][0] == 'sq' and x[0][1] == y[0][1] \
                and (x[0][3] == y[0][3] or x[0][4] == y[0][4]):
            return self.icmp('Eq', self.length(x), self.length(y))
        return self.pred(('seqeq',) + tuple(sorted((tuple(x), tuple(y)), key=repr)),
                         exact=self.free_pair(x, y) or refutes(self, tuple(x), tuple(y)))

    def free_pair(self, x, y):
        """two words that differ as terms over free symbols can really differ: nothing assumed so far
        relates them"""
        if len(x) != 1 or len(y) != 1 or x[0][0] != 'sq' or y[0][0] != 'sq':
            return False

        def free(t):
            if t[0] == 'app' and t[1] == 'step':
                return free_arg(t[4])
            return t[0] in ('arg', 'text') and t not in self.S.st.forgot

        def free_arg(v):
            return v[0] == 'str' and len(v[1]) <= 1 and all(a[0] == 'sq' and whole(a) and free(a[1]) for a in v[1])

        def whole(a):
            return a[3] == lin(0) and a[4] == self.rl(latom(('len', a[1])))

        def harmless(g):
            # a lower bound of one quantity, or the bounds a trim amount has by definition
            return (len(g[1]) == 1 and g[1][0][1] == 1 and g[0] <= 0) or any(t[0] == 'm' for t, _ in g[1])
        a, b = x[0], y[0]
        if whole(a) and whole(b) and free(a[1]) and free(b[1]):
            return True
        if whole(a) and whole(b) and self.two_leaves(a[1], b[1]):
            return True
        # one range of a text trimmed of different characters, with nothing known about the text
        from .models import untrim
        if a[1] == b[1] and a[1][0] in ('arg', 'text') and not self.S.st.preds and not self.S.st.cls \
                and all(harmless(g) for g in self.S.st.ge if g[1]):
            (ra, fa, ka), (rb, fb, kb) = untrim(self, a), untrim(self, b)
            if ra == rb and whole(ra) and all(q is None or q[0] == 'cls' for q in (fa, ka, fb, kb)) \
                    and (fa, ka) != (fb, kb):
                return True
        return False

    def two_leaves(self, a, b):
        """texts at two places of one document that nothing assumed so far relates or limits"""
        st = self.S.st

        def path(t):
            if t[0] == 'yaml' or t[:2] == ('app', 'csv_records'):
                return [('root', t)]
            if t[0] == 'f':
                return path(t[1]) + [('f',) + t[2:]]
            if t[0] in ('el', 'yaml_get'):
                return path(t[1]) + [(t[0], t[2])]
            if t[0] == 'fields':
                return path(t[1]) + [('fields',)]
            if t[0] in ('keys', 'vals'):
                return path(t[1][1]) + [('entries', t[0])]
            return [None]

        def apart(s, t):
            s, t = path(s), path(t)
            for i, (p, q) in enumerate(zip(s, t)):
                if p is None or q is None:
                    return False
                if p != q:
                    if p[0] == q[0] == 'el' and s[i - 1][0] in ('root', 'f', 'fields', 'entries'):
                        # the keys of a mapping are distinct
                        return not p[1][1] and not q[1][1] and s[i - 1] != ('entries', 'keys')
                    return p[0] == q[0] and p[0] in ('yaml_get', 'entries')
            return False

        def says(t):
            return isinstance(t, tuple) and (t in (a, b) or any(says(x) for x in t)) \
                or isinstance(t, frozenset) and any(says(x) for x in t)
        if st.forgot or a[0] not in ('f', 'el') or not apart(a, b):
            return False
        facts = tuple(st.alias.items()), tuple(st.cls.items()), tuple(st.ssub.items()), tuple(st.neq), tuple(st.isub.items()), \
            tuple(st.ge), tuple(p for p, v in st.preds.items() if v or p[0] not in ('seqeq', 'streq'))
        return not says(facts)

    def atom_same(self, p, q):
        if p == q:
            return True
        if p[0] == 'e' and q[0] == 'e' and p[1][0] == 'c' and q[1][0] == 'c':
            return self.rc(p[1][1]) == self.rc(q[1][1])
        if p[0] == 'e' and q[0] == 'e':
            return self.rterm(p[1]) == self.rterm(q[1])
        return False

    def src_is(self, atom, word):
        """is the opaque range `atom` equal to the known word?"""
        src = atom[1]
        lo, hi = atom[3], atom[4]
        full = lo == lin(0) and hi == self.rl(latom(('len', src)))
        key = ('streq', (src, lo, hi), word)
        self.touch(atom)
        base = src
        while base[0] == 'app' and base[1] in CASES:
            base = base[2][1][0][1]
        if full and base[0] == 'app' and base[1] == 'ext' and \
                any(w[1][0] == 'c' and w[1][1][0] == 'k' and w[1][1][1] in (0x2e, 0x2f) for w in word):
            return False        # an extension contains no dot and no separator
        if full and any(not v and p[0] == 'streq' and p[1][0] == src and p[2] == word
                        for p, v in self.S.st.preds.items()):
            return False
        if not full or src[0] == 'reg' or src in self.S.st.forgot or ('len', src) in self.S.st.isub \
                or not all(w[1][0] == 'c' and w[1][1][0] == 'k' for w in word):
            # compare element-wise through a length question
            n = self.length((atom,))
            if not self.icmp('Eq', n, lin(len(word))):
                return False
            for i, w in enumerate(word):
                if not self.eq(self.elem(src, atom[2], ladd(lo, lin(i))), w[1]):
                    return False
            return True
        v = self.S.st.preds.get(key)
        if v is not None:
            return v
        n = ladd(self.rl(latom(('len', src))), lin(-len(word)))
        text = ''.join(chr(e[1][1][1]) for e in word)
        inner = None
        if src[0] == 'app' and src[1] in CASES:
            if CASES[src[1]](text) != text:
                return False
            at = self.ratoms(src[2][1])
            if len(at) != 1 or at[0][0] != 'sq':
                if len(at) != len(word):
                    return False
                return all(self.in_class(e[1][1], cls_of({ord(g(ch)) for g in (str, *CASES.values())}))
                           for e, ch in zip(at, text))
            inner = at[0]
            if self.src_is(inner, word):
                return True
        blo, bhi = self.bounds(n)
        if (blo is not None and blo > 0) or (bhi is not None and bhi < 0):
            return False
        w = ''.join(chr(e[1][1][1]) if e[1][0] == 'c' and e[1][1][0] == 'k' else '?' for e in word)

        def yes(s):
            s.st.ssub[src] = word
            s.st.isub[('len', src)] = lin(len(word))
            if inner is not None:
                s.st.isub[('len', inner[1])] = lin(len(word))
                for i, ch in enumerate(text):
                    t = self.rc(self.elem(inner[1], inner[2], lin(i))[1])
                    k = cls_and(cls_of({ord(f(ch)) for f in (str, *CASES.values())}), self.cls(t))
                    if not k:
                        raise Infeasible()
                    if t[0] != 'k':
                        self.set_cls(s, t, k)

        def no(s):
            s.st.preds[key] = False
        raise Fork([('%s == "%s"' % (show_term(src), w), yes), ('%s != "%s"' % (show_term(src), w), no)])

    # ------------------------------------------------------------------ memory
    def load(self, ptr):
        return self.read_path(self.cell(ptr[1]), ptr[2])

    def cell(self, c):
        if c[0] == 'L':
            return self.S.th[c[1]].frames[c[2]].loc.get(c[3], ('top', 'uninit'))
        return self.S.heap[c[1]]

    def set_cell(self, c, v):
        if c[0] == 'L':
            self.S.th[c[1]].frames[c[2]].loc[c[3]] = v
        else:
            self.S.heap[c[1]] = v

    def store(self, ptr, v):
        if ptr[0] != 'ptr':
            raise Unsup('store through %s' % ptr[0])
        old = self.cell(ptr[1])
        self.set_cell(ptr[1], self.write_path(old, ptr[2], v))

    def read_path(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def write_path(self, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            old = self.force_agg(old, p)
            if old[0] == 'tup':
                l = list(old[1])
                while len(l) <= p[1]:
                    l.append(('top', 'uninit'))
                l[p[1]] = self.write_path(l[p[1]], path[1:], v)
                return ('tup', tuple(l))
            if old[0] == 'adt':
                l = list(old[2])
                l[p[1]] = self.write_path(l[p[1]], path[1:], v)
                return ('adt', old[1], tuple(l))
            if old[0] == 'clo':
                l = list(old[2])
                l[p[1]] = self.write_path(l[p[1]], path[1:], v)
                return ('clo', old[1], tuple(l))
            if old[0] == 'top':
                raise Unsup('write into unknown')
            raise Unsup('write field of %s' % old[0])
        if p[0] == 'd':
            return self.write_path(old, path[1:], v)
        if p[0] == 'x':        # element at a lin index
            if old[0] != 'seq':
                raise Unsup('index write into %s' % old[0])
            r = self.index(old[1], p[1])
            if r is None:
                raise Unsup('index write out of range')
            b, a, c = r
            if a[0] == 'sg':
                return ('seq', b + (self.weak_update(a, v, path[1:]),) + c)
            return ('seq', b + (('e', self.write_path(a[1], path[1:], v)),) + c)
        if p[0] == 'mv':       # map value at entry index
            atoms = old[2]
            a = atoms[p[1]]
            k, val = a[1]
            return ('map', old[1], atoms[:p[1]] + (('e', (k, self.write_path(val, path[1:], v))),) + atoms[p[1] + 1:])
        if p[0] == 'jv':
            return self.junk_write(old, p, path[1:], v)
        raise Unsup('write path %r' % (p,))

    def weak_update(self, a, v, path):
        if path:
            raise Unsup('weak update below an element')
        return self.seg_join(a, v)

    def seg_join(self, a, v):
        raise Unsup('weak update')

    def junk_write(self, old, p, path, v):
        raise Unsup('junk write')

    def force_agg(self, v, p):
        if v[0] == 'sym':
            return self.open_sym(v, self.variant(v[1], v[2]))
        return v

    def expand(self, v):
        if v[0] == 'sym':
            term = self.rterm(v[1])
            t = self.ty(v[2])
            if t['k'] == 'adt' and len(t['variants']) == 1 and t['akind'] == 'Struct' and not self.opaque_ty(t):
                return self.open_sym(('sym', term, v[2]), 0)
            if t['k'] == 'bool':
                return ('b', self.pred(('bool', term)))
            if term != v[1]:
                return ('sym', term, v[2])
        return v

    def opaque_ty(self, t):
        return t['name'].split('::')[0] in ('std', 'alloc', 'hashbrown', 'csv', 'serde_yaml', 'indexmap', 'clap') \
            and t['name'].split('::')[-1] not in ('Option', 'Result')

    def open_sym(self, v, var):
        term = self.rterm(v[1])
        fs = self.ty(v[2])['variants'][var][2]
        return ('adt', var, tuple(self.mk_sym(('f', term, var, i, fs[i][0]), fs[i][1]) for i in range(len(fs))))

    def proj(self, v, p):
        k = p[0]
        if k == 'f':
            i = p[1]
            if v[0] == 'sym':
                t = self.ty(v[2])
                if t['k'] == 'adt':
                    var = self.variant(v[1], v[2])
                    v = self.open_sym(v, var)
                else:
                    raise Unsup('field of sym %s' % t['s'])
            if v[0] == 'adt':
                if i >= len(v[2]):
                    raise Unsup('field index')
                return v[2][i]
            if v[0] == 'tup':
                return v[1][i] if i < len(v[1]) else ('top', 'uninit')
            if v[0] == 'clo':
                return v[2][i]
            if v[0] in ('ptr', 'ref'):     # Box / Unique / NonNull / MaybeUninit wrappers
                return v
            if v[0] == 'top':
                return ('top', v[1])
            raise Unsup('field of %s' % v[0])
        if k == 'd':
            return v
        if k == 'x':
            if v[0] != 'seq':
                raise Unsup('index into %s' % v[0])
            r = self.index(v[1], p[1])
            if r is None:
                raise Unsup('index out of range')
            a = r[1]
            if a[0] == 'sg':
                return self.seg_elem(a)
            return a[1]
        if k == 'mv':
            return v[2][p[1]][1][1]
        if k == 'jv':
            return self.junk_read(v, p)
        raise Unsup('proj %r' % (k,))

    def junk_read(self, v, p):
        raise Unsup('junk read')

    # ---- places: resolve to ('lv', cell, path) or ('val', v)
    def place(self, pl):
        S = self.S
        tid = S.cur
        th = S.th[tid]
        depth = len(th.frames) - 1
        cell = ('L', tid, depth, pl[0])
        cur = ('lv', cell, ())
        tyid = th.frames[-1].fn.locals[pl[0]] if pl[1] else None
        for e in pl[1]:
            t0 = self.ty(tyid) if tyid is not None else None
            if e == '*':
                tyid = None if t0 is None else t0.get('to') or \
                    (t0['args'][0] if t0['k'] == 'adt' and t0['name'].endswith('Box') else None)
            elif e[0] == 'f':
                tyid = e[2]
                if t0 is not None and t0['k'] == 'adt' and t0['name'].split('::')[-1] in WRAPPERS:
                    continue
            elif e[0] != 'd':
                tyid = t0.get('of') if t0 is not None else None
            if e == '*':
                v = self.get(cur)
                if v[0] == 'sym':
                    v = self.expand(v)
                if v[0] == 'ref':
                    cur = ('val', v[1])
                elif v[0] == 'ptr':
                    cur = ('lv', v[1], v[2])
                elif v[0] in ('str', 'seq'):
                    cur = ('val', v)
                elif v[0] == 'sym':
                    cur = ('val', v)       # transparent box
                elif v[0] == 'top':
                    cur = ('val', v)
                else:
                    raise Unsup('deref of %s' % v[0])
                continue
            k = e[0]
            if k == 'f':
                if cur[0] == 'lv':
                    v = self.get(cur)
                    if v[0] in ('ptr',) or (v[0] == 'seq'):
                        continue          # wrapper struct around a pointer / array (MaybeUninit)
                    p = ('f', e[1])
                    cur = ('lv', cur[1], cur[2] + (p,))
                else:
                    if cur[1][0] in ('ptr', 'seq'):
                        continue
                    cur = ('val', self.proj(cur[1], ('f', e[1])))
            elif k == 'd':
                continue
            elif k in ('i', 'c'):
                if k == 'i':
                    iv = self.get(('lv', ('L', tid, depth, e[1]), ()))
                    idx = iv[1]
                else:
                    if e[3]:
                        v = self.get(cur)
                        idx = ladd(self.length(v[1]), lin(-e[1]))
                    else:
                        idx = lin(e[1])
                if cur[0] == 'lv':
                    cur = ('lv', cur[1], cur[2] + (('x', idx),))
                else:
                    cur = ('val', self.proj(cur[1], ('x', idx)))
            elif k == 's':
                v = self.get(cur)
                if v[0] != 'seq':
                    raise Unsup('subslice')
                frm, to, fe = e[1], e[2], e[3]
                at = self.ratoms(v[1])
                for _ in range(frm):
                    r = self.uncons(at, False)
                    if r is None:
                        raise Infeasible()
                    at = r[1]
                if fe:
                    for _ in range(to):
                        r = self.unsnoc(at, False)
                        at = r[1]
                else:
                    raise Unsup('subslice of array')
                cur = ('val', ('seq', at))
            else:
                raise Unsup('place elem %r' % (e,))
        return cur

    def get(self, lv):
        if lv[0] == 'val':
            return lv[1]
        return self.read_path(self.cell(lv[1]), lv[2])

    def put(self, lv, v):
        if lv[0] == 'val':
            raise Unsup('write through shared reference')
        self.set_cell(lv[1], self.write_path(self.cell(lv[1]), lv[2], v))

    def set_place(self, pl, v):
        if not pl[1]:
            self.S.th[self.S.cur].frames[-1].loc[pl[0]] = v
            return
        self.put(self.place(pl), v)

    # ------------------------------------------------------------------ operands
    def zero_sized(self, ty):
        t = self.ty(ty)
        if t['k'] == 'fndef':
            return ('fn', t['f'])
        if t['k'] == 'closure':
            return ('clo', ty, tuple(self.zero_sized(e) for e in t.get('upvars', [])))
        return ('top', 'zero sized')

    def const(self, c, ty):
        k = c[0]
        if k == 'int':
            return I(c[1])
        if k == 'bool':
            return ('b', c[1])
        if k == 'char':
            return ('c', ('k', c[1]))
        if k == 'str':
            v = self.lit(c[1])
            return ('ref', v) if self.ty(ty)['k'] == 'ref' else v
        if k == 'fn':
            return ('fn', c[1])
        if k == 'tup':
            t = self.ty(ty)
            return ('tup', tuple(self.const(x, e) for x, e in zip(c[1], t['elems'])))
        if k == 'adt':
            t = self.ty(ty)
            fs = t['variants'][c[1]][2] if t['k'] == 'adt' else None
            if fs is None:
                raise Unsup('const adt')
            n = t['name'].split('::')[-1]
            return ('adt', c[1], tuple(self.const(x, f[1]) for x, f in zip(c[2], fs)))
        if k == 'arr':
            t = self.ty(ty)
            return ('seq', tuple(('e', self.const(x, t['of'])) for x in c[1]))
        if k == 'bytes':
            t = self.ty(ty)
            v = ('seq', tuple(('e', I(x)) for x in c[1]))
            return v
        if k == 'ref':
            return ('ref', self.const(c[1], self.ty(ty)['to']))
        if k == 'clo':
            t = self.ty(ty)
            ups = t.get('upvars', [])
            vs = [self.const(x, e) for x, e in zip(c[1], ups)]
            return ('clo', ty, tuple(vs + [self.zero_sized(e) for e in ups[len(vs):]]))
        if k == 'fnptr':
            return ('fnkey', c[1])
        if k == 'static':
            return ('top', 'static ' + str(c[1]))
        return ('top', 'const ' + str(c[-1]))

    def op(self, o):
        if o[0] in ('cp', 'mv'):
            return self.get(self.place(o[1]))
        if o[0] == 'k':
            return self.const(o[2], o[1])
        return FALSE            # runtime checks (ub_checks, overflow_checks): off

    def undsym(self, v):
        """force a lazy discriminant"""
        if v[0] == 'dsym':
            return I(self.ty(v[2])['variants'][self.variant(v[1], v[2])][1])
        return v

    def intval(self, v):
        if v[0] == 'dsym':
            v = self.undsym(v)
        if v[0] == 'sym' or v[0] == 'ref':
            v = self.strip_ref(v)
        if v[0] == 'i':
            return v[1]
        if v[0] == 'b':
            return lin(1 if v[1] else 0)
        if v[0] == 'c':
            t = self.rc(v[1])
            return lin(t[1]) if t[0] == 'k' else latom(('cp', t))
        raise Unsup('int of %s (%s)' % (v[0], v[1] if v[0] == 'top' else ''))

    def binop(self, op, a, b):
        base = op.replace('Unchecked', '').replace('WithOverflow', '')
        if a[0] == 'top':
            return a
        if b[0] == 'top':
            return b
        a, b = self.undsym(a), self.undsym(b)
        if a[0] == 'sym':
            a = self.expand(a)
        if b[0] == 'sym':
            b = self.expand(b)
        if base in ('Eq', 'Ne') and a[0] == 'c' and b[0] == 'c':
            r = self.ch_eq(a[1], b[1])
            return ('b', r if base == 'Eq' else not r)
        if base in ('Eq', 'Ne') and a[0] == 'b' and b[0] == 'b':
            return ('b', (a[1] == b[1]) == (base == 'Eq'))
        if a[0] == 'b' and b[0] == 'b' and base in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = a[1], b[1]
            return ('b', x and y if base == 'BitAnd' else x or y if base == 'BitOr' else x != y)
        x, y = self.rl(self.intval(a)), self.rl(self.intval(b))
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return ('b', self.icmp(base, x, y, stream=bool(x[1] or y[1])))
        if base == 'Cmp':
            if self.icmp('Lt', x, y):
                return ('adt', 0, ())
            if self.icmp('Eq', x, y):
                return ('adt', 1, ())
            return ('adt', 2, ())
        if base == 'Add':
            return ('i', ladd(x, y))
        if base == 'Sub':
            return ('i', ladd(x, y, -1))
        if base == 'Mul':
            if not x[1]:
                return ('i', lmul(y, x[0]))
            if not y[1]:
                return ('i', lmul(x, y[0]))
            return ('i', latom(('op', 'mul') + tuple(sorted((x, y), key=repr))))
        if not x[1] and not y[1]:
            p, q = x[0], y[0]
            try:
                return I({'Div': lambda: p // q, 'Rem': lambda: p % q, 'BitAnd': lambda: p & q,
                          'BitOr': lambda: p | q, 'BitXor': lambda: p ^ q, 'Shl': lambda: p << q,
                          'Shr': lambda: p >> q}[base]())
            except (KeyError, ZeroDivisionError):
                raise Unsup('binop %s' % op)
        a = ('op', base, x, y)
        return ('i', latom(a))

    # ------------------------------------------------------------------ stepping
    def rvalue(self, r, fr):
        k = r[0]
        if k == 'use':
            return self.op(r[1])
        if k in ('ref', 'addr'):
            lv = self.place(r[1])
            mut = r[2]
            if k == 'addr':
                mut = True
            if mut:
                if lv[0] == 'lv':
                    v = self.get(lv)
                    return ('ptr', lv[1], lv[2])
                # &mut of something reached through a snapshot: e.g. &mut *(&mut str)
                return ('ref', lv[1])
            return ('ref', self.get(lv))
        if k == 'bin':
            return self.binop(r[1], self.op(r[2]), self.op(r[3]))
        if k == 'cbin':
            a, b = self.op(r[2]), self.op(r[3])
            v = self.binop(r[1], a, b)
            if v[0] == 'top':
                return ('tup', (v, v))
            ov = FALSE
            if r[1].startswith('Sub'):
                # unsigned subtraction: underflow is a real question
                if self.unsigned_operand(r[2], fr) and not self.nonneg(v[1]):
                    ov = ('b', not self.ge0(v[1]))
            elif r[1].startswith('Add') or r[1].startswith('Mul'):
                c = self.rl(v[1])
                if not c[1] and c[0] >= (1 << 64):
                    ov = TRUE
            return ('tup', (v, ov))
        if k == 'un':
            v = self.op(r[2])
            if r[1] == 'Not':
                if v[0] == 'sym':
                    v = self.expand(v)
                if v[0] == 'b':
                    return ('b', not v[1])
                raise Unsup('not on %s' % v[0])
            if r[1] == 'Neg':
                return ('i', lmul(self.intval(v), -1))
            if r[1] == 'PtrMetadata':
                v = self.strip_ref(v)
                if v[0] in ('seq',):
                    return ('i', self.length(v[1]))
            raise Unsup('unop %s' % r[1])
        if k == 'cast':
            v = self.op(r[2])
            ck = r[1]
            t = self.ty(r[3])
            if ck == 'IntToInt' or ck == 'IntToInt(..)':
                if t['k'] == 'char':
                    if v[0] == 'c':
                        return v
                    x = self.rl(self.intval(v))
                    if not x[1]:
                        return ('c', ('k', x[0]))
                    if len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0][0] == 'cp' and x[0] == 0:
                        return ('c', x[1][0][0][1])
                    return ('c', ('ofint', x))
                return ('i', self.intval(v))
            return v
        if k == 'reify':
            return ('fn', r[1])
        if k == 'discr':
            v = self.get(self.place(r[1]))
            return self.discr(v)
        if k == 'len':
            v = self.get(self.place(r[1]))
            if v[0] == 'seq':
                return ('i', self.length(v[1]))
            raise Unsup('len of %s' % v[0])
        if k == 'repeat':
            v = self.op(r[1])
            n = r[2]
            if isinstance(n, list):
                n = n[-1]
            n = int(n)
            if n > 4096:
                raise Unsup('big array')
            return ('seq', tuple(('e', v) for _ in range(n)))
        if k == 'agg':
            kd = r[1]
            ops = tuple(self.op(o) for o in r[2])
            if kd[0] == 'tuple':
                return ('tup', ops)
            if kd[0] == 'array':
                return ('seq', tuple(('e', v) for v in ops))
            if kd[0] == 'closure':
                return ('clo', kd[1], ops)
            if kd[0] == 'adt':
                t = self.ty(kd[1])
                if t['akind'] == 'Union':
                    return ops[0]
                drop = self.forget.get(t['name'])
                if drop:
                    # fields the question is not about; code that reads them makes the question undecided
                    ops = tuple(('opq', 'left out') if f[0] in drop else o
                                for f, o in zip(t['variants'][kd[2]][2], ops))
                return ('adt', kd[2], ops)
            if kd[0] == 'rawptr':
                return ops[0]
            raise Unsup('aggregate %s' % kd[0])
        if k == 'tls':
            return ('top', 'thread local')
        raise Unsup('rvalue %s' % k)

    def nonneg(self, l):
        lo, hi = self.bounds(l)
        return lo is not None and lo >= 0

    def unsigned_operand(self, o, fr):
        if o[0] == 'k':
            return self.ty(o[1])['k'] == 'uint'
        pl = o[1]
        if not pl[1]:
            return self.ty(fr.fn.locals[pl[0]])['k'] == 'uint'
        e = pl[1][-1]
        if isinstance(e, (list, tuple)) and e[0] == 'f':
            return self.ty(e[2])['k'] == 'uint'
        return True

    def discr(self, v):
        if v[0] == 'sym':
            term = self.rterm(v[1])
            left = self.variants_left(term, v[2])
            if len(left) > 1:
                return ('dsym', term, v[2])
            return I(self.ty(v[2])['variants'][left[0]][1])
        if v[0] == 'adt':
            return ('dv', v[1])          # variant index; switch maps it through the type
        if v[0] == 'top':
            return v
        raise Unsup('discriminant of %s' % v[0])

    def goto(self, fr, bb):
        fr.bb = bb
        fr.si = 0

    def step(self):
        """execute one instruction of the current thread; returns True when a loop header was reached
        with symbolic progress (yield point)"""
        S = self.S
        th = S.th[S.cur]
        fr = th.frames[-1]
        if fr.kind == 'N':
            return self.step_native(fr)
        st, term = fr.fn.blocks[fr.bb]
        n = len(st)
        while fr.si < n:
            s = st[fr.si]
            k = s[0]
            if k == '=':
                fr.line = s[3]
                v = self.rvalue(s[2], fr)
                if v[0] == 'dv':
                    # translate a variant index into the discriminant of the place's type
                    v = I(self.discr_value(s[2][1], v[1], fr))
                self.set_place(s[1], v)
            elif k == 'setd':
                lv = self.place(s[1])
                v = self.get(lv)
                if v[0] != 'adt':
                    v = ('adt', s[2], ())
                self.put(lv, ('adt', s[2], v[2]))
            elif k == 'dead':
                fr.loc.pop(s[1], None)
            fr.si += 1
        return self.terminator(fr, term)

    def place_ty(self, pl, fr):
        """type of a place (enough for discriminants)"""
        t = fr.fn.locals[pl[0]]
        var = None
        for e in pl[1]:
            ty = self.ty(t)
            if e == '*':
                if ty['k'] in ('ref', 'ptr'):
                    t = ty['to']
                elif ty['k'] == 'adt' and ty['name'].endswith('Box'):
                    t = ty['args'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                t = ty['of'] if 'of' in ty else t
        return t

    def discr_value(self, pl, var, fr):
        t = self.ty(self.place_ty(pl, fr))
        if t['k'] != 'adt':
            raise Unsup('discriminant type')
        return t['variants'][var][1]

    def header(self, fr, bb):
        """control passes to block bb; is it a yield?"""
        self.goto(fr, bb)
        if fr.fn is not None and bb in fr.fn.loops and fr.sym:
            fr.sym = False
            return True
        return False

    def mark_sym(self):
        """a symbolic read happened: every frame of the thread made symbolic progress"""
        for f in self.S.th[self.S.cur].frames:
            f.sym = True

    def terminator(self, fr, t):
        k = t[0]
        if k == 'goto':
            return self.header(fr, t[1])
        if k == 'switch':
            v = self.op(t[1])
            if v[0] == 'dsym':
                return self.header(fr, self.switch_variant(v, t))
            if v[0] == 'sym':
                v = self.expand(v)
            if v[0] == 'b':
                x = 1 if v[1] else 0
                for val, b in t[2]:
                    if val == x:
                        return self.header(fr, b)
                return self.header(fr, t[3])
            if v[0] == 'c':
                for val, b in t[2]:
                    if self.ch_eq(v[1], ('k', val)):
                        return self.header(fr, b)
                return self.header(fr, t[3])
            if v[0] == 'top':
                raise Unsup('branch on unknown (%s)' % (v[1],))
            l = self.intval(v)
            for val, b in t[2]:
                if self.icmp('Eq', l, lin(val)):
                    return self.header(fr, b)
            return self.header(fr, t[3])
        if k == 'ret':
            v = fr.loc.get(0, UNIT)
            return self.do_return(v)
        if k == 'drop':
            if not t[1][1] and t[1][0] != 0:
                pass
            return self.header(fr, t[2])
        if k == 'call':
            fr.line = t[5]
            return self.do_call(fr, t)
        if k == 'assert':
            self.stats['asserts'] += 1
            fr.line = t[6]
            v = self.op(t[1])
            if v[0] == 'top':
                raise Unsup('assert on unknown')
            if v[0] == 'sym':
                v = self.expand(v)
            if v[1] == t[2]:
                return self.header(fr, t[5])
            raise PanicX('%s' % (t[3],))
        if k == 'unreach':
            raise Infeasible()
        raise Unsup('terminator %s' % k)

    def do_return(self, v):
        S = self.S
        th = S.th[S.cur]
        fr = th.frames[-1]
        if any(x[0] == 'L' and x[1] == S.cur and x[2] == len(th.frames) - 1 for x in cells_in(v)):
            raise Unsup('returned pointer to a local')
        th.frames.pop()
        if not th.frames:
            th.result = ('ret', v)
            return True
        c = th.frames[-1]
        if c.kind == 'N':
            c.inbox = v
            return False
        self.set_place(fr.dest, v)
        if fr.target is None:
            raise Infeasible()
        return self.header(c, fr.target)

    # ---- calls
    def do_call(self, fr, t):
        f = self.op(t[1])
        args = [self.op(a) for a in t[2]]
        dest, target = t[3], t[4]
        if f[0] == 'ref':
            f = f[1]
        if f[0] == 'fnkey':
            return self.invoke_key(f[1], args, dest, target, None)
        if f[0] != 'fn':
            raise Unsup('call of %s' % f[0])
        fd = self.db.fndefs[f[1]]
        key = fd.get('inst')
        if key is None:
            raise Unsup('unresolved call to %s' % fd.get('def'))
        return self.invoke_key(key, args, dest, target, fd, destty=t[6])

    def invoke_key(self, key, args, dest, target, fd, destty=None):
        fn = self.db.fns.get(key)
        if fn is None:
            raise Unsup('missing function %s' % key)
        return self.invoke(fn, args, dest, target, fd, destty)

    def lookup(self, table, fn):
        m = table.get(fn.mkey)
        if m is None:
            m = table.get(strip_generics(fn.path))
        if m is None and fn.mkey.count('|') == 2:
            m = table.get('*|' + fn.mkey.split('|', 1)[1])
        return m

    def invoke(self, fn, args, dest, target, fd=None, destty=None):
        # closures / function items called through the Fn traits
        if fd is not None and fd.get('def', '').startswith('core::ops::function::Fn') or \
                (fn.kind == 'shim' and fn.mkey in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')):
            tup = args[1]
            if tup[0] != 'tup':
                raise Unsup('call tuple')
            return self.call_value(args[0], list(tup[1]), dest, target)
        m = self.lookup(self.cuts, fn)
        if m is None and fn.krate not in self.own:
            m = self.lookup(self.models, fn)
        if m is not None:
            c = Call(self, fn, args, dest, target, fd, destty)
            v = m(c)
            if v is not NotImplemented:
                self.stats['leaves'].add(fn.mkey)
                return self.finish_native(c, v, dest, target)
        if fn.intrinsic and not fn.has_body:
            raise Unsup('intrinsic %s' % fn.intrinsic)
        if not fn.has_body:
            raise Unsup('no model for %s' % fn.mkey)
        return self.push(fn, args, dest, target)

    def finish_native(self, c, v, dest, target):
        if v is None:              # model pushed frames itself
            return False
        if target is None:
            raise Unsup('model of diverging function returned')
        S = self.S
        fr = S.th[S.cur].frames[-1]
        if fr.kind == 'N':
            fr.inbox = v
            return False
        self.set_place(dest, v)
        return self.header(fr, target)

    def push(self, fn, args, dest, target):
        S = self.S
        th = S.th[S.cur]
        if len(th.frames) > 60:
            raise Unsup('recursion')
        self.stats['fns'].add(fn.key)
        f = Frame()
        f.kind = 'M'
        f.fn = fn
        f.bb = 0
        f.si = 0
        f.loc = {i + 1: a for i, a in enumerate(args)}
        if len(args) != fn.nargs:
            raise Unsup('arity of %s: %d/%d' % (fn.mkey, len(args), fn.nargs))
        f.dest = dest
        f.target = target
        f.data = None
        f.inbox = None
        f.line = fn.line
        f.sym = False
        th.frames.append(f)
        return False

    def push_native(self, name, data, dest, target):
        th = self.S.th[self.S.cur]
        f = Frame()
        f.kind = 'N'
        f.fn = None
        f.bb = name
        f.si = 0
        f.loc = {}
        f.dest = dest
        f.target = target
        f.data = data
        f.inbox = None
        f.line = th.frames[-1].line if th.frames else 0
        f.sym = False
        th.frames.append(f)
        return None

    def call_value(self, f, args, dest, target):
        """call a closure or function item value"""
        g = f
        while g[0] in ('ref', 'ptr') and (g[0] == 'ref' or self.load(g)[0] in ('clo', 'fn', 'ref', 'ptr', 'cutfn')):
            ng = g[1] if g[0] == 'ref' else self.load(g)
            if ng[0] in ('clo', 'fn', 'fnkey', 'cutfn'):
                return self.call_fnval(ng, g, args, dest, target)
            g = ng
        return self.call_fnval(g, None, args, dest, target)

    def call_fnval(self, g, holder, args, dest, target):
        if g[0] == 'cutfn':
            v = g[1](self, args)
            return self.finish_native(None, v, dest, target)
        if g[0] == 'fn':
            fd = self.db.fndefs[g[1]]
            key = fd.get('inst')
            if key is None:
                raise Unsup('unresolved fn item %s' % fd.get('def'))
            fn = self.db.fns[key]
            if not fn.has_body and self.lookup(self.models, fn) is None and self.ctor(fn) is None:
                pass
            return self.invoke(fn, args, dest, target, None)
        if g[0] == 'fnkey':
            return self.invoke_key(g[1], args, dest, target, None)
        if g[0] != 'clo':
            raise Unsup('call of value %s' % g[0])
        c = self.db.callables.get(g[1])
        key = c and (c.get('fn') or c.get('mut') or c.get('once'))
        fn = self.db.fns.get(key) if key else None
        if fn is None or not fn.has_body:
            raise Unsup('closure body missing')
        t1 = self.ty(fn.locals[1])
        if t1['k'] == 'ref':
            if t1['mut']:
                if holder is None or holder[0] != 'ptr':
                    self.S.nh += 1
                    self.S.heap[self.S.nh] = g
                    holder = ('ptr', ('H', self.S.nh), ())
                env = holder
            else:
                env = ('ref', g)
        else:
            env = g
        return self.push(fn, [env] + args, dest, target)

    def ctor(self, fn):
        return None

    # ---- native frames: a tiny protocol.  data = (op, ...), see models.NATIVE
    def step_native(self, fr):
        from . import models
        return models.NATIVE[fr.bb](self, fr)

    def native_return(self, v):
        return self.do_return(v)

    # ------------------------------------------------------------------ driver
    def new_state(self):
        s = State()
        s.th = []
        s.cur = 0
        s.heap = {}
        s.nh = 0
        s.st = Store()
        s.inexact = frozenset()
        s.hist = None
        s.fresh = 0
        s.extra = {}
        s.steps = 0
        s.pin = False
        return s

    def reversed_hash(self):
        return self.S.cur == 1 if self.hash_rev == 'split' else self.hash_rev

    def add_thread(self, s, name, fn, args):
        old = self.S
        self.S = s
        t = Thread()
        t.frames = []
        t.result = None
        t.name = name
        t.ev = ()
        t.cnt = -1
        s.th.append(t)
        cur = s.cur
        s.cur = len(s.th) - 1
        self.push(fn, args, None, None)
        s.cur = cur
        self.S = old

    def event(self, e):
        th = self.S.th[self.S.cur]
        th.ev = th.ev + (self.rterm(e),)

    def pick(self, s):
        """choose the thread to run: unfinished with the least stream progress"""
        best = None
        for i, t in enumerate(s.th):
            if t.result is None:
                if best is None or t.cnt < s.th[best].cnt:
                    best = i
        return best

    def run(self, init, on_final):
        """explore to fixpoint.  on_final(ctx, state) is called for every final state."""
        from .canon import canonicalise
        work = [init]
        seen = {}
        nstates = 0
        steps = 0
        while work:
            s = work.pop()
            nstates += 1
            if nstates > self.max_states:
                self.undecided('state limit')
                break
            self.S = s
            if not (s.pin and s.th[s.cur].result is None):
                s.cur = self.pick(s)
            s.pin = False
            if s.cur is None:
                self.final(s, on_final, work)
                continue
            try:
                y = False
                while not y:
                    y = self.step()
                    steps += 1
                    s.steps += 1
                    if steps > self.max_steps:
                        raise Unsup('step limit')
            except Fork as f:
                self.stats['forks'] += 1
                for label, fn in reversed(f.alts):
                    c = s.copy()
                    c.pin = True
                    c.hist = (s.hist, self.where(s), label)
                    try:
                        old, self.S = self.S, c
                        self.assume(c, fn)
                        if f.stream:
                            c.cur = s.cur
                            self.mark_sym()
                    except Infeasible:
                        continue
                    finally:
                        self.S = old
                    work.append(c)
                continue
            except Infeasible:
                continue
            except PanicX as p:
                th = s.th[s.cur]
                th.result = ('panic', p.msg, self.where(s))
                th.frames = []
                work.append(s)
                continue
            except Unsup as u:
                self.undecided(str(u), s)
                continue
            if s.th[s.cur].result is not None:
                work.append(s)
                continue
            # loop header: canonical form, subsumption
            self.stats['headers'] += 1
            if self.delay:
                n = s.extra.get('hdr', 0)
                if n < self.delay:
                    s.extra = dict(s.extra)
                    s.extra['hdr'] = n + 1
                    work.insert(len(work) if self.limit is not None else 0, s)
                else:
                    self.stats['cut'] = self.stats.get('cut', 0) + 1
                continue
            try:
                ns = canonicalise(self, s, seen)
            except Unsup as u:
                self.undecided(str(u), s)
                continue
            if ns is not None:
                work.insert(0, ns)
        self.stats['states'] += nstates
        self.stats['steps'] += steps

    def final(self, s, on_final, work):
        try:
            on_final(self, s)
        except Fork as f:
            for label, fn in reversed(f.alts):
                c = s.copy()
                c.hist = (s.hist, 'final comparison', label)
                try:
                    old, self.S = self.S, c
                    self.assume(c, fn)
                except Infeasible:
                    continue
                finally:
                    self.S = old
                work.append(c)
        except Infeasible:
            pass
        except Unsup as u:
            self.undecided(str(u), s)

    def undecided(self, why, s=None):
        w = why
        if s is not None:
            w = '%s at %s' % (why, self.where(s))
        self.stats['undecided'][w] = self.stats['undecided'].get(w, 0) + 1

    def where(self, s=None):
        s = s or self.S
        try:
            th = s.th[s.cur]
        except (TypeError, IndexError):
            return '?'
        for f in reversed(th.frames):
            if f.kind == 'M' and f.fn.file and 'src/' in f.fn.file and '/rustc' not in f.fn.file \
                    and not f.fn.file.startswith('/root/.rustup') and not f.fn.file.startswith('/opt/'):
                return '%s (%s:%s)' % (f.fn.path, f.fn.file, f.line)
        if th.frames:
            f = th.frames[-1]
            return '%s:%s' % (f.fn.path if f.fn else f.bb, f.line)
        return 'end of %s' % th.name


class Call:
    """Argument bundle for models."""
    __slots__ = ('cx', 'fn', 'args', 'dest', 'target', 'fd', 'destty')

    def __init__(self, cx, fn, args, dest, target, fd, destty=None):
        self.cx = cx
        self.fn = fn
        self.args = args
        self.dest = dest
        self.target = target
        self.fd = fd
        self.destty = destty

    @property
    def S(self):
        return self.cx.S

    def tyargs(self):
        """generic type arguments of the callee"""
        a = (self.fd or {}).get('args')
        return a if a else (self.fn.args or [])

    def ret_ty(self):
        return self.destty

    def arg_ty(self, i):
        l = self.fn.locals
        if not l or 1 + i >= len(l):
            raise Unsup('type of an argument of %s' % self.fn.mkey)
        return l[1 + i]


# --- helpers ------------------------------------------------------------------------------------
def cells_in(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ptr':
            out.add(v[1])
        else:
            for x in v:
                if isinstance(x, tuple):
                    cells_in(x, out)
    return out


def show_lin(l):
    s = ' + '.join((('%d*' % c) if c != 1 else '') + show_term(a) for a, c in l[1])
    return '%s%+d >= 0' % (s, l[0]) if l[1] else '%d >= 0' % l[0]


def show_cls(k):
    def c(x):
        return "'%s'" % chr(x) if 0x20 <= x < 0x7f or 0x3000 <= x < 0xfff0 and not 0xd800 <= x < 0xe000 else 'U+%04X' % x
    p = []
    for lo, hi in k[:4]:
        p.append(c(lo) if lo == hi else '%s-%s' % (c(lo), c(hi)))
    return '{%s%s}' % (','.join(p), ',..' if len(k) > 4 else '')


def show_term(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'k' and len(t) == 2:
        return "'%s'" % chr(t[1])
    if k == 'el' and len(t) == 3:
        return '%s[%s]' % (show_term(t[1]), show_lin(t[2]).replace(' >= 0', '').replace('+0', ''))
    if k == 'arg':
        return str(t[1])
    if k == 'f' and len(t) == 5:
        return '%s.%s' % (show_term(t[1]), t[4])
    if k == 'c' and len(t) == 2:
        return show_term(t[1])
    if k == 'i' and len(t) == 2:
        return show_lin(t[1]).replace(' >= 0', '')
    if k == 'str' and len(t) == 2:
        return 'str(%s)' % show_atoms(t[1])
    if k == 'seq' and len(t) == 2:
        return 'seq(%s)' % show_atoms(t[1])
    return '%s(%s)' % (k, ', '.join(show_term(x) for x in t[1:]))


def show_atoms(atoms):
    out = []
    for a in atoms:
        if a[0] == 'e' and isinstance(a[1], tuple) and a[1][0] == 'c':
            t = a[1][1]
            out.append(chr(t[1]) if t[0] == 'k' else '<%s>' % show_term(t))
        elif a[0] == 'e':
            out.append('<%s>' % show_val(a[1]))
        elif a[0] == 'sq':
            hi = a[4]
            out.append('<%s%s>' % (show_term(a[1]), '' if a[3] == (0, ()) else '[%s..]' % show_lin(a[3]).replace(' >= 0', '')))
        else:
            out.append('<%s*>' % a[0])
    return ''.join(out)


def show_val(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == 'str':
        return '"%s"' % show_atoms(v[1])
    if k == 'seq':
        return '[%s]' % show_atoms(v[1])
    if k == 'tup' and len(v) == 2:
        return '(%s)' % ', '.join(show_val(x) for x in v[1])
    if k == 'adt' and len(v) == 3:
        return 'v%s{%s}' % (v[1], ', '.join(show_val(x) for x in v[2]))
    if k == 'ref':
        return '&' + show_val(v[1])
    if k == 'c':
        return show_term(v[1])
    if k == 'i':
        return show_lin(v[1]).replace(' >= 0', '')
    if k == 'b':
        return str(v[1])
    if k == 'sym':
        return show_term(v[1])
    return k


def history(s, limit=40):
    out = []
    h = s.hist
    while h is not None:
        out.append((h[1], h[2]))
        h = h[0]
    out.reverse()
    return out[-limit:]
