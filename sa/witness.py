"""Can two words that differ as terms really differ?

The words and the facts of the path are evaluated under a handful of interpretations of the free generators they
mention: texts handed in, results of readers.  Each generator becomes a word of at most three tokens.  Only what is
fully evaluated counts; whatever this file does not understand makes the answer 'not known'.
A generator is replaced by the same word everywhere, so an interpretation is a legitimate one: facts that do not
mention a replaced generator stay as true as they were."""
import itertools


class No(Exception):
    pass


KNOWN = ('replace', 'sorted', 'set', 'plus', 'minus', 'backwards')
NOTFREE = {'env', 'cwd', 'home', 'ext', 'with_ext', 'canonicalize', 'contents', 'display', 'repeat', 'replacen', 'join',
           'format', 'to_yaml', 'utf8', 'strip_prefix', 'strip_suffix', 'trim_start', 'trim_end', 'stdin_line',
           'csv_records', 'reverse', 'keys', 'elem', 'split', 'lower', 'upper'}


def _lin(n):
    return (n, ())


class Model:
    def __init__(self, cx, gens, words, scalars=()):
        self.cx = cx
        self.words = dict(zip(gens, words))
        self.scalars = dict(scalars)
        self.named = set(self.words) | set(self.scalars)

    # ---- integers
    def lin(self, l):
        n = l[0]
        for t, k in l[1]:
            n += k * self.atom(t)
        return n

    def atom(self, t):
        if t[0] == 'len' and t[1][0] == 'app' and t[1][1] == 'set':
            return len(set(self.value(t[1][2])))
        if t[0] == 'len':
            return len(self.src(t[1]))
        if t[0] == 'u8':
            return len(self.char(t[1]).encode())
        if t[0] == 'bp':
            w, i = self.src(t[1]), self.lin(t[2])
            if not 0 <= i <= len(w) or not all(isinstance(c, str) for c in w):
                raise No('position')
            return len(''.join(w[:i]).encode())
        if t[0] == 'm' and t[2][0] == 'cls' and t[3][0] == 'sq':
            w = self.word((t[3],))
            n = 0
            for ch in w if t[1] == 'front' else reversed(w):
                if not any(lo <= ord(ch) <= hi for lo, hi in t[2][1]):
                    break
                n += 1
            return n
        raise No('integer %r' % (t[0],))

    def char(self, t):
        v = self.term(t)
        if not isinstance(v, str) or len(v) != 1:
            raise No('character')
        return v

    # ---- words
    def src(self, s):
        if s in self.words:
            return self.words[s]
        if s[0] in ('f', 'el'):
            w = self.term(s)
            if not isinstance(w, tuple) or w[:1] == ('adt',):
                raise No('source')
            return w
        if s[0] == 'app' and s[1] in KNOWN:
            return self.app(s[1], s[2:])
        raise No('source %r' % (s[:2],))

    def term(self, t):
        """an element of a generator, or a field of one"""
        if t in self.scalars:
            return self.scalars[t]
        if t[0] == 'el':
            w, i = self.src(t[1]), self.lin(t[2])
            if not 0 <= i < len(w):
                raise No('position')
            return w[i]
        if t[0] == 'f':
            v = self.term(t[1])
            if not isinstance(v, tuple) or v[:2] != ('adt', t[2]):
                raise No('field')
            return v[2 + t[3]]
        if t[0] == 'k':
            return chr(t[1])
        raise No('term %r' % (t[0],))

    def app(self, name, a):
        if name == 'replace':
            t, f, to = (self.value(x) for x in a)
            if not all(isinstance(x, tuple) and (not x or isinstance(x[0], str)) for x in (t, f, to)):
                raise No('replace')
            return tuple(''.join(t).replace(''.join(f), ''.join(to)))
        if name == 'sorted':
            w = self.distinct_set(a[0])
            return tuple(sorted(w, key=order))
        if name == 'set':
            # no order is promised: falling order is as good as any
            return tuple(sorted(set(self.value(a[0])), key=order, reverse=True))
        if name == 'backwards':
            return tuple(reversed(self.value(a[0])))
        if name == 'plus':
            return tuple(sorted(set(self.value(a[0]) + self.value(a[1])), key=order))
        if name == 'minus':
            b = self.value(a[1])
            return tuple(sorted((x for x in self.value(a[0]) if x not in b), key=order))
        raise No(name)

    def distinct_set(self, v):
        if v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'sq' and v[1][0][1][0] == 'app' \
                and v[1][0][1][1] == 'set':
            at = v[1][0]
            w = tuple(set(self.value(at[1][2])))
            if self.lin(at[3]) != 0:
                raise No('part of a set')
            return w
        return self.value(v)

    def word(self, at):
        out = ()
        for a in at:
            if a[0] == 'e':
                out += (self.value(a[1]),)
            elif a[0] == 'sq':
                w = self.src(a[1])
                if a[3] == _lin(0) and a[4] == (0, ((('len', a[1]), 1),)):
                    out += w
                    continue
                lo, hi = self.lin(a[3]), self.lin(a[4])
                if not 0 <= lo <= hi <= len(w):
                    raise No('range')
                out += w[lo:hi]
            else:
                raise No('atom ' + a[0])
        return out

    def value(self, v):
        k = v[0]
        if k in ('str', 'seq'):
            return self.word(v[1])
        if k == 'ref':
            return self.value(v[1])
        if k == 'c':
            return self.term(v[1])
        if k == 'i':
            return self.lin(v[1])
        if k == 'b' and v[1] in (True, False):
            return v
        if k == 'adt':
            return ('adt', v[1]) + tuple(self.value(x) for x in v[2])
        if k == 'tup':
            return ('tup',) + tuple(self.value(x) for x in v[1])
        if k == 'opq' and v[1] == 'csvw' and v[4][0] == 'evs':          # what was written
            return ('csvw', v[2], self.value(v[3]), self.word(v[4][1]))
        if k == 'sym' and mentions(v[1], self.named):
            return self.term(v[1])
        if k in ('sym', 'opq'):
            return ('term', v)          # equal terms are equal; nothing else is concluded from them
        raise No('value ' + str(k))

    # ---- facts
    def holds(self, st):
        for g in st.ge:
            if mentions(g, self.named) and self.lin(g) < 0:
                return False
        for t, l in st.isub.items():
            if mentions((t, l), self.named) and self.atom(t) != self.lin(l):
                return False
        for s, w in st.ssub.items():
            if mentions((s, w), self.named) and self.src(s) != self.word(w):
                return False
        for x in st.var.items():
            if mentions(x, self.named):
                raise No('fact about an element')
        for x, k in st.cls.items():
            if mentions(x, self.named) and not any(lo <= ord(self.char(x)) <= hi for lo, hi in k):
                return False
        for x, y in st.alias.items():
            if mentions((x, y), self.named) and self.term(x) != self.term(y):
                return False
        for x in st.neq:
            if any(mentions(y, self.named) for y in x) and len({self.term(y) for y in x}) < 2:
                return False
        for p, b in st.preds.items():
            if not mentions(p, self.named):
                continue
            if p[0] == 'seqeq':
                if (self.word(p[1]) == self.word(p[2])) != b:
                    return False
            elif p[0] == 'streq':
                (s, lo, hi), w = p[1], p[2]
                if (self.src(s)[self.lin(lo):self.lin(hi)] == self.word(w)) != b:
                    return False
            elif p[0] == 'strlt':
                if (order(self.value(p[1])) < order(self.value(p[2]))) != b:
                    return False
            elif p[0] == 'boundary':
                w, lo, n = self.src(p[1]), self.lin(p[2]), self.lin(p[3])
                if any(len(''.join(w[lo:i]).encode()) == n for i in range(lo, len(w) + 1)) != b:
                    return False
            else:
                raise No('fact ' + str(p[0]))
        return True


def order(x):
    if isinstance(x, tuple):
        return (1,) + tuple(order(y) for y in x)
    return (0, str(x))


def mentions(t, gens):
    if not isinstance(t, tuple):
        return False
    if t in gens:
        return True
    return any(mentions(x, gens) for x in t)


def rich(cx, ty, depth=4):
    """has the type plenty of values?"""
    t = cx.ty(ty)
    if t['k'] in ('char', 'str', 'slice'):
        return True
    if t['k'] == 'ref':
        return rich(cx, t['to'], depth)
    if t['k'] != 'adt' or not depth:
        return False
    if t['name'].split('::')[-1] in ('String', 'Vec', 'Value', 'PathBuf', 'HashMap'):
        return True
    return any(rich(cx, f[1], depth - 1) for v in t['variants'] for f in v[2])


def vocabulary(cx, ety):
    t = cx.ty(ety)
    if t['k'] == 'char':
        return ['a', 'b']
    if t['k'] == 'adt' and t['name'].split('::')[-1] == 'Item':
        return [('adt', 0, ('a',), ('b',)), ('adt', 0, ('b',), ('a',))]
    if rich(cx, ety):
        return [('fresh', 1), ('fresh', 2)]
    raise No('type')


def generators(cx, at, out):
    """free sources below a word; opaque elements are left alone"""
    for a in at:
        if a[0] == 'e':
            _vals(cx, a[1], out)
        elif a[0] == 'sq':
            s = a[1]
            if s[0] == 'app' and s[1] in KNOWN:
                for v in s[2:]:
                    _vals(cx, v, out)
            else:
                free(cx, s)
                out[s] = a[2]
        else:
            raise No('atom ' + a[0])


def _vals(cx, v, out):
    if v[0] in ('str', 'seq'):
        generators(cx, v[1], out)
    elif v[0] == 'ref':
        _vals(cx, v[1], out)
    elif v[0] == 'adt':
        for x in v[2]:
            _vals(cx, x, out)


def free(cx, s):
    if s in cx.S.st.forgot or s in cx.S.st.ssub:
        raise No('bound')
    if s[0] == 'f':
        return free(cx, s[1])
    if s[0] in ('arg', 'text'):
        return
    if s[0] in ('reg', 'elem', 'n', 'm', 'app') or s[0] in NOTFREE or not isinstance(s[0], str):
        raise No('generator %r' % (s[0],))
    if ' ' not in s[0] and s[0] not in ('from_tables',):
        raise No('generator %r' % (s[0],))


def head(s):
    while s[0] == 'f':
        s = s[1]
    return s[0]


def refutes(cx, x, y):
    """is there an interpretation, in line with every fact of the path, in which the words differ?"""
    try:
        gens = {}
        generators(cx, x, gens)
        generators(cx, y, gens)
        if not gens or len(gens) > 4:
            return False
        # one function applied to two arguments: the arguments may be equal, so may the words
        gl = list(gens)
        heads = {}
        for g in gl:
            if head(g) not in ('arg', 'text'):
                heads.setdefault(path_of(g), []).append(g)
        cand = []
        for g in gl:
            voc = vocabulary(cx, gens[g])
            cand.append([w for n in (0, 1, 2) for w in itertools.product(voc, repeat=n)])
        st = cx.S.st
        for ws in itertools.product(*cand):
            m = dict(zip(gl, ws))
            if any(m[g] != m[gs[0]] for gs in heads.values() for g in gs):
                continue
            mod = Model(cx, gl, ws)
            try:
                if mod.word(x) != mod.word(y) and mod.holds(st) and apart(mod, x, y):
                    return True
            except No:
                continue
    except No:
        return False
    return False


def path_of(s):
    """the function a generator applies, without its argument"""
    if s[0] == 'f':
        return (path_of(s[1]),) + s[2:]
    return s[0]


def apart(mod, x, y):
    """the difference does not hang on two opaque terms being different"""
    a, b = mod.word(x), mod.word(y)
    if len(a) != len(b):
        return True
    return any(p != q and not (opaque(p) and opaque(q)) for p, q in zip(a, b))


def opaque(v):
    return isinstance(v, tuple) and (v[:1] == ('term',) or any(opaque(x) for x in v))


# ------------------------------------------------------------------ whole states
TRIES = 20000


def sources(cx, t, out):
    """the free sequences below a value or fact and the types of their elements"""
    if not isinstance(t, tuple):
        return
    if len(t) == 5 and t[0] == 'sq' and isinstance(t[1], tuple):
        if based(t[1]):
            out[t[1]] = t[2]
    elif len(t) == 3 and t[0] == 'sym' and isinstance(t[1], tuple) and len(t[1]) == 3 and t[1][0] == 'el' \
            and based(t[1][1]):
        out[t[1][1]] = t[2]
    elif (len(t) == 2 and t[0] == 'len' or len(t) == 3 and t[0] in ('bp', 'el')) and isinstance(t[1], tuple) \
            and based(t[1]):
        out.setdefault(t[1], None)
    for x in t:
        sources(cx, x, out)


def based(s):
    while s[0] == 'f':
        s = s[1]
    return s[0] in ('arg', 'text', 'item')


def element_ty(cx, src):
    """the type of the elements of a sequence that was handed in"""
    v = cx.mk_sym(src, term_ty(cx, src))
    while v[0] == 'ref':
        v = v[1]
    if v[0] not in ('str', 'seq'):
        raise No('element type')
    return v[1][0][2]


def term_ty(cx, t):
    if t[0] == 'arg' and t[1] in cx.argty:
        return cx.argty[t[1]]
    if t[0] == 'f' and len(t) == 5:
        ty = cx.ty(term_ty(cx, t[1]))
        while ty['k'] == 'ref':
            ty = cx.ty(ty['to'])
        return ty['variants'][t[2]][2][t[3]][1]
    raise No('type of %r' % (t[0],))


def choices(cx, ety):
    """a few values of an element type"""
    t = cx.ty(ety)
    if t['k'] == 'char':
        return ['a', 'b']
    if t['k'] == 'ref':
        return choices(cx, t['to'])
    if t['k'] == 'str' or t['k'] == 'adt' and t['name'].split('::')[-1] == 'String':
        return [('a',), ('b',)]
    if t['k'] == 'adt' and len(t['variants']) == 1:
        return [('adt', 0) + p for p in itertools.product(*[choices(cx, f[1]) for f in t['variants'][0][2]])]
    raise No('type')


def confirms(cx, s):
    """an interpretation of everything handed in which satisfies every fact of the path and makes the two
    results differ"""
    st = s.st
    a, b = s.th[0].result, s.th[1].result
    if a[0] != 'ret' or b[0] != 'ret' or st.forgot or st.ssub:
        return False
    try:
        out = {}
        facts = (tuple(st.ge), tuple(st.isub.items()), tuple(st.preds.items()), tuple(map(tuple, st.neq)),
                 tuple(st.alias.items()))
        for t in (a[1], b[1], facts):
            sources(cx, t, out)
        if not out or len(out) > 6:
            return False
        for g in out:
            if out[g] is None:
                out[g] = element_ty(cx, g)
        gl = list(out)
        voc = [choices(cx, out[g]) for g in gl]
        tries = 0
        for ns in itertools.product(range(4), repeat=len(gl)):
            m = Model(cx, gl, [(voc[i][0],) * n for i, n in enumerate(ns)])
            try:
                if any(m.lin(g) < 0 for g in st.ge) or any(m.atom(t) != m.lin(l) for t, l in st.isub.items()
                                                           if t[0] == 'len'):
                    continue
            except No:
                continue
            for ws in itertools.product(*[list(itertools.product(v, repeat=n)) for v, n in zip(voc, ns)]):
                tries += 1
                if tries > TRIES:
                    return False
                m = Model(cx, gl, ws)
                try:
                    if m.holds(st):
                        x, y = m.value(a[1]), m.value(b[1])
                        if x != y and not opaque(x) and not opaque(y):
                            return True
                except No:
                    continue
    except No:
        return False
    return False


# ------------------------------------------------------------------ single paths
LETTERS = ('a', 'b', ' ', 'あ')


def scalars(cx, t, out):
    """the characters handed in as such that a fact mentions"""
    if not isinstance(t, tuple):
        return
    if t and (t[0] == 'f' and len(t) == 5 or t[0] == 'arg' and len(t) == 2) and based(t):
        try:
            if cx.ty(term_ty(cx, t))['k'] == 'char':
                out.add(t)
                return
        except (No, KeyError, IndexError):
            pass
    for x in t:
        scalars(cx, x, out)


def reachable(cx, s):
    """an interpretation of everything handed in which satisfies every fact of the path: it is a path of the
    program, and not only one of the analysis"""
    st = s.st
    if st.forgot or st.ssub or s.inexact:
        return False
    try:
        facts = (tuple(st.ge), tuple(st.isub.items()), tuple(st.preds.items()), tuple(map(tuple, st.neq)),
                 tuple(st.alias.items()), tuple(st.cls.items()), tuple(st.var.items()))
        out, one = {}, set()
        sources(cx, facts, out)
        scalars(cx, facts, one)
        if not out or len(out) > 4 or len(one) > 2:
            return False
        for g in out:
            if out[g] is None:
                out[g] = element_ty(cx, g)
        gl, sl = list(out), sorted(one)
        voc = [LETTERS if cx.ty(out[g])['k'] == 'char' else choices(cx, out[g]) for g in gl]
        tries = 0
        for cs in itertools.product(LETTERS, repeat=len(sl)):
            sc = dict(zip(sl, cs))
            for ns in itertools.product(range(4), repeat=len(gl)):
                for ws in itertools.product(*[list(itertools.product(v, repeat=n)) for v, n in zip(voc, ns)]):
                    tries += 1
                    if tries > TRIES:
                        return False
                    m = Model(cx, gl, ws, sc)
                    try:
                        if all(m.lin(g) >= 0 for g in st.ge) and m.holds(st):
                            return True
                    except No:
                        continue
    except No:
        return False
    return False
