"""Canonical form of abstract states at loop headers, widening and subsumption."""
from .engine import (Unsup, Infeasible, lin, latom, ladd, lmul, cells_in, SCALAR)

LONE_LIMIT = 2
LONE_CONST_LIMIT = 8
SET_LIMIT = 3
MAP_LIMIT = 8
FRESH = 10 ** 9


def is_lin(x):
    return (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool)
            and isinstance(x[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], int)
                                                for y in x[1]))


def tmap(v, f):
    """rebuild a nested tuple bottom-up; f is applied to every tuple after its children"""
    if not isinstance(v, tuple):
        return v
    return f(tuple(tmap(x, f) for x in v))


def tdown(v, f):
    """rebuild a nested tuple top-down; f returns a replacement, or None to descend"""
    if not isinstance(v, tuple):
        return v
    r = f(v)
    if r is not None:
        return r
    return tuple(tdown(x, f) for x in v)


def walk(v, f):
    """pre-order visit of tuples; f returns False to stop descending"""
    if isinstance(v, tuple):
        if f(v) is False:
            return
        for x in v:
            if isinstance(x, tuple):
                walk(x, f)


def resolve(cx, v):
    """apply aliases, integer and sequence substitutions"""
    if not isinstance(v, tuple) or not v:
        return v
    if is_lin(v):
        r = cx.rl(v)
        return (r[0], tuple((resolve_atom(cx, a), c) for a, c in r[1]))
    k = v[0]
    if k in ('str', 'seq') and len(v) == 2 and isinstance(v[1], tuple):
        return (k, tuple(resolve(cx, a) for a in cx.ratoms(v[1])))
    if k == 'it' and len(v) >= 3 and isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple) \
            and v[2][0] and v[2][0][0] in ('e', 'sq', 'sg'):
        return ('it', v[1], tuple(resolve(cx, a) for a in cx.ratoms(v[2]))) + tuple(resolve(cx, x) for x in v[3:])
    r = tuple(resolve(cx, x) for x in v)
    if isinstance(r[0], str):
        r2 = cx.rc(r)
        return r2
    return r


def resolve_atom(cx, a):
    return tuple(resolve(cx, x) for x in a) if isinstance(a, tuple) else a


def live_locals(th):
    """per frame: set of live locals (before following pointers)"""
    out = []
    for d, fr in enumerate(th.frames):
        if fr.kind == 'N':
            out.append(None)
            continue
        if d == len(th.frames) - 1:
            out.append(set(fr.fn.live[fr.bb]))
        else:
            t = th.frames[d + 1].target
            # a native frame above keeps its own target; the M frame resumes at that block
            s = set(fr.fn.live[t]) if t is not None else set()
            dest = th.frames[d + 1].dest
            if dest is not None and dest[1]:
                s.add(dest[0])
            out.append(s)
    return out


def canonicalise(cx, s, seen):
    cx.S = s
    # ---- 1. live roots, following pointers
    live = [live_locals(t) for t in s.th]
    keep_heap = {}
    order = []
    pend = []

    def add_value(v):
        cs = cells_in(v)
        for c in sorted(cs, key=repr):
            pend.append(c)
    for ti, t in enumerate(s.th):
        if t.result is not None:
            add_value(t.result)
        for d, fr in enumerate(t.frames):
            if fr.kind == 'N':
                add_value(fr.data)
                continue
            for l in sorted(live[ti][d]):
                if l in fr.loc:
                    add_value(fr.loc[l])
    while pend:
        c = pend.pop(0)
        if c[0] == 'L':
            if c[1] < len(s.th) and c[2] < len(s.th[c[1]].frames):
                if c[3] not in live[c[1]][c[2]]:
                    live[c[1]][c[2]].add(c[3])
                    v = s.th[c[1]].frames[c[2]].loc.get(c[3])
                    if v is not None:
                        add_value(v)
        else:
            if c[1] not in keep_heap:
                keep_heap[c[1]] = len(keep_heap) + 1
                add_value(s.heap[c[1]])

    # ---- assemble the roots
    roots = []       # [(slot, value)]
    for ti, t in enumerate(s.th):
        if t.result is not None:
            roots.append((('res', ti), t.result))
        roots.append((('ev', ti), t.ev))
        for d, fr in enumerate(t.frames):
            if fr.kind == 'N':
                roots.append((('nat', ti, d), fr.data))
                continue
            for l in sorted(live[ti][d]):
                if l in fr.loc:
                    v = fr.loc[l]
                    if cx.collapse and v[0] == 'seq':
                        ts = cx.tystr(fr.fn.locals[l])
                        if any(c in ts for c in cx.collapse):
                            v = ('seq', (('sq', ('reg', 'x'), -1, lin(0), latom(('len', ('reg', 'x')))),))
                    roots.append((('loc', ti, d, l), v))
    for h in sorted(keep_heap, key=lambda x: keep_heap[x]):
        roots.append((('heap', keep_heap[h]), s.heap[h]))
    slots = [r[0] for r in roots]
    vals = [resolve(cx, r[1]) for r in roots]

    # heap renaming
    def hp(v):
        if len(v) == 2 and v[0] == 'H' and v[1] in keep_heap:
            return ('H', keep_heap[v[1]])
        return v
    vals = [tmap(v, hp) for v in vals]

    # ---- 2. registers for common prefixes
    vals = registers(cx, s, vals, slots)

    # ---- 3. forget consumed elements
    vals, wm, forgot = anonymise(cx, s, vals, slots)

    # ---- 4. facts
    facts = gather_facts(cx, s, vals, wm, forgot)

    # ---- 5. integers
    return integers(cx, s, slots, vals, facts, wm, forgot, seen, keep_heap)


# ------------------------------------------------------------------ registers
def words_of(vals):
    """all words in the roots: dict word -> multiplicity, with kind"""
    out = {}

    def f(v):
        if len(v) == 2 and v[0] in ('str', 'seq') and isinstance(v[1], tuple):
            out[v[1]] = out.get(v[1], 0) + 1
        elif len(v) == 3 and v[0] == 'map' and isinstance(v[2], tuple):
            w = (v[1],) + v[2]
            out[w] = out.get(w, 0) + 1
        elif len(v) == 2 and v[0] == 'evs':
            out[v[1]] = out.get(v[1], 0) + 1
    for v in vals:
        walk(v, f)
    return out


def is_const_word(w):
    def f(v):
        if len(v) >= 2 and v[0] in ('el', 'v', 'sq', 'reg', 'sym', 'sg', 'arg', 'n', 'get', 'app', 't') and ok[0]:
            ok[0] = False
    ok = [True]
    for a in w:
        walk(a, f)
    return ok[0]


def depth(v):
    if not isinstance(v, tuple) or not v:
        return 0
    return 1 + max(depth(x) for x in v)


def registers(cx, s, vals, slots):
    sync = len({t.cnt for t in s.th if t.result is None}) <= 1
    for _ in range(6):
        ws = words_of(vals)
        groups = {}
        for w, m in ws.items():
            if w and isinstance(w[0], str):
                # a table is only summarised once it has grown past any plausible literal
                k = [i for i, a in enumerate(w) if i and not is_const_word((a,))]
                if len(w) > (SET_LIMIT if w[0][1:] == 'set' else MAP_LIMIT) and k and \
                        (len(k) > 1 or w[0][1:] != 'set' or k[0] > 1):
                    groups.setdefault(w[1], []).append((w[1:], m))
            elif w:
                groups.setdefault(w[0], []).append((w, m))
        # registers in order of first appearance
        subs = {}       # prefix atoms -> reg
        done = False
        for first in groups:
            g = groups[first]
            total = sum(m for _, m in g)
            if total >= 2:
                lcp = g[0][0]
                for w, _ in g[1:]:
                    n = 0
                    while n < len(lcp) and n < len(w) and lcp[n] == w[n]:
                        n += 1
                    lcp = lcp[:n]
            else:
                lcp = g[0][0]
            base = lcp
            # keep one trailing element in view
            if base and base[-1][0] == 'e':
                base = base[:-1]
            if not base:
                continue
            if any(a[0] == 'sg' for a in base):
                continue
            lone = total < 2
            growing = False
            if len(base) >= 2:
                if lone:
                    growing = len(base) > (LONE_CONST_LIMIT if is_const_word(base) else LONE_LIMIT)
                else:
                    growing = not is_const_word(base) or len(base) > LONE_CONST_LIMIT
            elif base[0][0] == 'sq' and base[0][1][0] == 'app':
                # a result of one side is only summarised once the other side has caught up
                growing = not lone and sync and nested_app(base[0][1]) or depth(base[0][1]) > 40
            if not growing:
                continue
            if lone and is_const_word(base) and any(base == c[-len(base) - 1:-1] or base == c[-len(base):]
                                                    for c in cx_consts(cx)):
                continue
            subs[base] = None
            done = True
            break
        if not done:
            break
        base = next(iter(subs))
        ety = base[0][2] if base[0][0] == 'sq' else -1
        if ety == -1:
            for a in base:
                if a[0] == 'sq':
                    ety = a[2]
            if ety == -1 and base[0][0] == 'e' and base[0][1][0] == 'c':
                ety = cx.chty()
        name = ('reg', s.newname())
        reg = ('sq', name, ety, lin(0), latom(('len', name)))
        n = len(base)

        def f(v):
            if len(v) == 2 and v[0] in ('str', 'seq', 'evs') and isinstance(v[1], tuple) and v[1][:n] == base:
                return (v[0], (reg,) + v[1][n:])
            if len(v) == 3 and v[0] == 'map' and isinstance(v[2], tuple) and v[2][:n] == base:
                return ('map', v[1], (reg,) + v[2][n:])
            return v
        vals = [tmap(v, f) for v in vals]
        s.st.forgot = frozenset(tmap(x, f) for x in s.st.forgot)
    return vals


def nested_app(t):
    hit = [False]

    def f(x):
        if x is not t and (len(x) > 2 and x[0] == 'app' or len(x) == 2 and x[0] == 'reg'):
            hit[0] = True
    walk(t, f)
    return hit[0]


def cx_consts(cx):
    return ()


# ------------------------------------------------------------------ forgetting
def root(src):
    """the stream whose cursor reads this source (keys and values are read with their table)"""
    while src[0] in ('keys', 'vals'):
        src = src[1]
    return src


def anonymise(cx, s, vals, slots):
    # cursors: lower ends of live opaque ranges
    cur = {}
    zero = set()
    most = max([t.cnt for t in s.th] + [-1])
    behind = {i for i, t in enumerate(s.th) if t.result is None and t.cnt < most}
    held = {}
    kept = set()        # collections of structured elements that are still held: their elements keep their names
    ch = cx.chty()
    for slot, v in zip(slots, vals):
        th = s.th[slot[1]] if slot[0] in ('loc', 'nat', 'res', 'ev') else None
        unstarted = th is not None and th.result is None and th.cnt < 0

        def f(x):
            if len(x) == 5 and x[0] == 'sq' and is_lin(x[3]):
                if x[2] != ch and x[2] != -1:
                    kept.add(root(x[1]))
                if x[3] != lin(0):
                    cur.setdefault(x[1], set()).add(x[3])
                    if slot[0] in ('loc', 'nat'):
                        held.setdefault(x[1], set()).add(slot[1])
                elif unstarted or x[2] != ch and slot[0] in ('loc', 'nat') and slot[1] in behind:
                    zero.add(x[1])
            elif len(x) == 3 and x[0] == 'sym' and isinstance(x[1], tuple) and th is not None and \
                    cx.tystr(x[2]).endswith('StringRecord'):
                kept.add(('fields', x[1]))      # its fields can be read again at any time
            elif len(x) == 3 and x[0] == 'it' and th is not None and slot[1] in behind:
                for a in x[2]:
                    if isinstance(a, tuple) and len(a) == 5 and a[0] == 'sq' and a[3] == lin(0):
                        zero.add(a[1])
        walk(v, f)
    # the elements of a collection inside an element stay known while a thread that is behind may still open it
    for src in cur:
        if behind - held.get(src, set()):
            zero.add(src)
    wm = {}
    for src, ls in cur.items():
        if src in zero:
            wm[src] = lin(0)
            continue
        ls = sorted(ls, key=repr)
        m = ls[0]
        for x in ls[1:]:
            lo, hi = cx.bounds(ladd(x, m, -1))
            if hi is not None and hi <= 0:
                m = x
            elif lo is not None and lo >= 0:
                pass
            else:
                m = lin(0)
                break
        wm[src] = m
    for src in zero:
        wm[src] = lin(0)
    ren = {}
    live_el = set()
    forgot = set(s.st.forgot)

    def inside_unread(src):
        """part of an element that some thread has not reached yet"""
        hit = [False]

        def f(x):
            if len(x) == 3 and x[0] == 'el' and is_lin(x[2]) and root(x[1]) in wm:
                lo, hi = cx.bounds(ladd(x[2], wm[root(x[1])], -1))
                if lo is not None and lo >= 0:
                    hit[0] = True
        walk(src, f)
        return hit[0]

    def f(x):
        if len(x) == 3 and x[0] == 'el' and is_lin(x[2]):
            src = root(x[1])
            if src in kept and src not in wm or behind and inside_unread(src):
                live_el.add(x)
                return None
            if src in wm:
                lo, hi = cx.bounds(ladd(x[2], wm[src], -1))
                if lo is not None and lo >= 0:
                    return None
            elif src not in consumed:
                return None
            if x not in ren:
                if x[2][1] and src in wm and (hi is None or hi >= 0):
                    cx.S.note('element at an unknown position')
                for y in ren:
                    if y[0] == 'el' and y[1] == x[1] and (y[2][1] or x[2][1]):
                        lo, hi = cx.bounds(ladd(x[2], y[2], -1))
                        if not (lo is not None and lo > 0 or hi is not None and hi < 0):
                            cx.S.note('element at an unknown position')
                ren[x] = ('v', len(ren))
                forgot.add(src)
            return ren[x]
        if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
            key = ('old', x)
            if key not in ren:
                ren[key] = ('v', len(ren))
            return ren[key]
        return None
    # sources whose elements were read but have no live cursor are consumed as well
    consumed = set()

    def g(x):
        if len(x) == 3 and x[0] == 'el' and is_lin(x[2]) and root(x[1]) not in wm and root(x[1]) not in kept:
            consumed.add(root(x[1]))
    for v in vals:
        walk(v, g)
    nvals = [tdown(v, f) for v in vals]
    for src in wm:
        if wm[src] != lin(0):
            forgot.add(src)
    # collections inside elements: known under the name of the element, or dropped with it
    dead = [False]

    def fg(x):
        if x in ren:
            return ren[x]
        if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
            if ('old', x) not in ren:
                dead[0] = True
            return ren.get(('old', x), x)
        return None

    def keyed(src):
        dead[0] = False
        n = tdown(src, fg)
        return None if dead[0] else n
    owm, oforgot = wm, forgot
    nforgot = {keyed(src) for src in forgot} - {None}
    nwm = {keyed(src): l for src, l in wm.items() if keyed(src) is not None}
    # registers get canonical names too
    regs = {}

    def h(x):
        if len(x) == 2 and x[0] == 'reg':
            if x not in regs:
                regs[x] = ('reg', 'r%d' % len(regs))
            return regs[x]
        return x

    def order(x):
        if len(x) == 2 and x[0] == 'reg':
            h(x)
    for v in nvals:
        walk(v, order)
    nvals = [tmap(v, h) for v in nvals]
    s.extra['_ren'] = (ren, regs, live_el, owm, oforgot)
    return nvals, nwm, nforgot


VOL = ('el', 'v', 'reg')


def vol_leaves(t):
    out = set()

    def f(x):
        if len(x) == 3 and x[0] == 'el' and is_lin(x[2]):
            out.add(x)
        elif len(x) == 2 and x[0] in ('v', 'reg') and not isinstance(x[1], tuple):
            out.add(x)
        elif len(x) == 2 and x[0] == 'n' and isinstance(x[1], int):
            out.add(x)
    walk(t, f)
    return out


def gather_facts(cx, s, vals, wm, forgot):
    ren, regs, live_el, wm, forgot = s.extra.pop('_ren')

    def rn(x):
        if x in ren and isinstance(x, tuple) and len(x) == 3:
            return ren[x]
        if len(x) == 2 and x[0] == 'v' and ('old', x) in ren:
            return ren[('old', x)]
        if len(x) == 2 and x[0] == 'reg':
            return regs.get(x, ('reg', 'dead'))
        return x

    liveset = set()
    for v in vals:
        liveset |= vol_leaves(v)

    def conv(t):
        """rename a fact term; None when it mentions something dead"""
        return raw(resolve(cx, t))

    def raw(t):
        # elements without a live name are dead unless they may still be read
        bad = [False]

        def f(x):
            if len(x) == 3 and x[0] == 'el' and is_lin(x[2]):
                if x in ren:
                    return ren[x]
                if x in live_el:
                    return None
                if root(x[1]) in wm:
                    lo, hi = cx.bounds(ladd(x[2], wm[root(x[1])], -1))
                    if lo is not None and lo >= 0:
                        return None
                elif root(x[1]) not in forgot:
                    return None
                bad[0] = True
                return x
            if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
                if ('old', x) in ren:
                    return ren[('old', x)]
                bad[0] = True
                return x
            if len(x) == 2 and x[0] == 'reg':
                if x in regs:
                    return regs[x]
                bad[0] = True
                return x
            if len(x) == 2 and x[0] == 'n' and isinstance(x[1], int):
                if x not in liveset:
                    bad[0] = True
                return x
            return None
        t = tdown(t, f)
        return None if bad[0] else t
    conv.raw = raw

    st = s.st
    F = {'cls': {}, 'alias': {}, 'neq': set(), 'preds': {}, 'var': {}, 'ge': {}, 'isub': {}, 'ssub': {}}
    for t, k in st.cls.items():
        if t in st.alias:
            continue
        n = conv(t)
        if n is not None:
            F['cls'][n] = k
    for t in st.alias:
        # aliases of terms that can still be re-created
        n = conv_key(cx, t, conv)
        if n is not None:
            r = conv(cx.rc(t))
            if r is not None and r != n:
                F['alias'][n] = r
    for p in st.neq:
        q = frozenset(conv(x) for x in p)
        if None not in q and len(q) == 2:
            F['neq'].add(q)
    for p, b in st.preds.items():
        n = conv(p)
        if n is not None:
            F['preds'][n] = b
    for t, v in st.var.items():
        n = conv(t)
        if n is not None:
            F['var'][n] = v
    for g in st.ge:
        n = conv(g)
        if n is not None and n[1]:
            old = F['ge'].get(n[1])
            F['ge'][n[1]] = n[0] if old is None else min(old, n[0])
    for a, l in st.isub.items():
        n = conv_key(cx, a, conv)
        r = conv(cx.rl(l))
        if n is not None and r is not None:
            F['isub'][n] = r
    for src, atoms in st.ssub.items():
        n = conv_key(cx, src, conv)
        r = tuple(conv(x) for x in cx.ratoms(atoms))
        if n is not None and None not in r:
            F['ssub'][n] = r
    return F


def conv_key(cx, t, conv):
    """rename the children of a substituted key without resolving the key itself"""
    if not isinstance(t, tuple):
        return t
    parts = []
    for x in t:
        if isinstance(x, tuple):
            y = conv(x)
            if y is None:
                return None
            parts.append(y)
        else:
            parts.append(x)
    r = tuple(parts)
    if len(r) == 3 and r[0] == 'el':
        return conv_el(r, conv)
    if len(r) == 2 and r[0] in ('v', 'n', 'reg'):
        return None
    return r


def conv_el(r, conv):
    # an element key: alive only when conv keeps it as an element
    old = conv.raw(r)
    return old if old is not None and old[0] == 'el' else None


# ------------------------------------------------------------------ integers
def spent(cx, vals, F):
    """lengths of inputs that nothing can reach any more: the equation that gave the length is
    replaced by what it says about the rest"""
    keys = [a for a in F['isub'] if a[0] == 'len'] + [t for g in F['ge'] for t, _ in g if t[0] == 'len']
    cand = {}
    for a in keys:
        r = a[1]
        while r[0] == 'f':
            r = r[1]
        if r[0] == 'arg':
            cand.setdefault(r, set()).add(a)
    if not cand:
        return

    def f(x):
        if len(x) == 2 and x[0] == 'arg':
            cand.pop(x, None)
    for v in vals:
        walk(v, f)
    for n in ('cls', 'alias', 'preds', 'var', 'ssub'):
        for kv in F[n].items():
            walk(kv, f)
    for p in F['neq']:
        walk(tuple(p), f)
    for ks in cand.values():
        for a in ks:
            l = F['isub'].pop(a, None)
            if l is not None and l[1]:
                F['ge'][l[1]] = min(l[0], F['ge'].get(l[1], l[0]))
            for g in [g for g in F['ge'] if any(t == a for t, _ in g)]:
                del F['ge'][g]


def integers(cx, s, slots, vals, F, wm, forgot, seen, keep_heap):
    spent(cx, vals, F)
    # canonical symbols: the first linear form mentioning ('n', k) becomes the new symbol
    sub = {}

    bound = {}

    def scan(x):
        if not is_lin(x):
            return True
        if not x[1]:
            return False
        if any(a[0] == 'n' and a not in sub for a, c in x[1]) and all(a[0] == 'n' for a, c in x[1]):
            r = ap(x)
            for a, c in r[1]:
                if abs(c) == 1 and a not in sub and a[1] < FRESH:
                    j = ('n', FRESH + len(sub))
                    # c*n + rest = n'  ->  n = c*(n' - rest): a change of variables
                    rest = ladd(r, lmul(latom(a), c), -1)
                    sub[a] = lmul(ladd(latom(j), rest, -1), c)
                    if len(x[1]) > 1:
                        bound[j] = cx.bounds(x)
                    break
        return True

    def ap(x):
        while is_lin(x) and any(a in sub for a, _ in x[1]):
            r = (x[0], tuple(y for y in x[1] if y[0] not in sub))
            for a, c in x[1]:
                if a in sub:
                    r = ladd(r, lmul(sub[a], c))
            x = r
        return x

    for v in vals:
        walk(v, scan)

    def unk(x):
        if len(x) == 2 and x[0] == 'n' and isinstance(x[1], int) and x[1] >= FRESH:
            return ('n', x[1] - FRESH)
        return x

    def rename(v):
        return tmap(tmap(v, ap), unk)

    # symbols without a plain occurrence keep their name
    rest = set()

    def other(x):
        if len(x) == 2 and x[0] == 'n' and isinstance(x[1], int) and x not in sub and x[1] < FRESH:
            rest.add(x)
    for v in vals:
        walk(tmap(v, ap), other)
    for i, x in enumerate(sorted(rest)):
        sub[x] = latom(('n', FRESH + 500 + i))
    vals = [rename(v) for v in vals]
    livens = set()

    def nlive(x):
        if len(x) == 2 and x[0] == 'n' and isinstance(x[1], int):
            livens.add(x)
    for v in vals:
        walk(v, nlive)

    def dead(t):
        hit = [False]

        def f(x):
            if len(x) == 2 and x[0] == 'n' and isinstance(x[1], int) and x not in livens:
                hit[0] = True
        walk(t, f)
        return hit[0]
    ge = {}
    for j, (lo, hi) in bound.items():
        j = unk(j)
        if lo is not None:
            ge[((j, 1),)] = -lo
        if hi is not None:
            ge[((j, -1),)] = hi
    for form, c in F['ge'].items():
        n = rename((c, form))
        if n[1] and not dead(n):
            old = ge.get(n[1])
            ge[n[1]] = n[0] if old is None else min(old, n[0])
    G = {n: {rename(k): rename(v) for k, v in F[n].items()}
         for n in ('cls', 'alias', 'preds', 'var', 'isub', 'ssub')}
    G = {n: {k: v for k, v in d.items() if not dead((k, v))} for n, d in G.items()}
    G['neq'] = {q for q in (frozenset(rename(x) for x in p) for p in F['neq']) if not dead(tuple(q))}
    wm = {rename(k): rename(v) for k, v in wm.items() if not dead(rename(k))}
    forgot = frozenset(x for x in (rename(x) for x in forgot) if not dead(x))

    # skeleton with holes for constants of linear forms
    holes = []

    def hole(x):
        if not isinstance(x, tuple):
            return x
        if is_lin(x):
            holes.append(x[0])
            return ('#', tuple((hole(a), c) for a, c in x[1]))
        return tuple(hole(y) for y in x)

    # normalise thread progress
    unf = [t.cnt for t in s.th if t.result is None]
    m = max(0, min(unf)) if unf else 0
    cnts = tuple(min(3, t.cnt - m) if t.result is None else -9 for t in s.th)
    for t in s.th:
        if t.result is None:
            t.cnt = min(3, t.cnt - m)
    shape = tuple(tuple((fr.kind, fr.fn.key if fr.fn else fr.bb, fr.bb, fr.target,
                         fr.si if fr.kind == 'N' else 0, hole(fr.inbox) if fr.inbox is not None else None)
                        for fr in t.frames) for t in s.th)
    sk_vals = tuple(hole(v) for v in vals)
    cl = tuple(sorted(((k, v) for k, v in G['cls'].items()), key=repr))
    facts = tuple(sorted(((n, k, v) for n in ('alias', 'preds', 'var', 'isub', 'ssub') for k, v in G[n].items()),
                         key=repr))
    nq = tuple(sorted((tuple(sorted(p, key=repr)) for p in G['neq']), key=repr))
    sk_cl = tuple((hole(k), v) for k, v in cl)
    sk_facts = hole(facts)
    sk_nq = hole(nq)
    skel = (shape, tuple(slots), sk_vals, sk_cl, sk_facts, sk_nq, cnts,
            tuple(t.result is None for t in s.th), s.cur)
    vec = tuple(holes)
    inex = bool(s.inexact)
    hk = hash(skel)
    ent = seen.setdefault(skel, {'vecs': [], 'wid': 0})
    full = len(ent['vecs']) >= cx.widen_after + 2

    def entails(f1, f2):
        for form, c in f2.items():
            c1 = f1.get(form)
            if c1 is None:
                b, _ = bounds_from(f1, form)
                if b is None or b + c < 0:
                    return False
            elif c1 > c:
                return False
        return True

    for v2, g2, ix2 in ent['vecs']:
        if v2 == vec and entails(ge, g2) and (not ix2 or inex or full):
            return None
    same = [g2 for v2, g2, _ in ent['vecs'] if v2 == vec]
    rows = [v2 for v2, _, _ in ent['vecs']]
    distinct = []
    for r in rows:
        if r not in distinct:
            distinct.append(r)
    promoted = None
    if len(distinct) >= cx.widen_after and vec not in distinct or len(distinct) > cx.widen_after + 2:
        promoted = promote(cx, distinct + ([vec] if vec not in distinct else []), vec)
    ent['vecs'].append((vec, dict(ge), inex))
    if len(ent['vecs']) > 60:
        raise Unsup('no fixpoint (integers)')
    if promoted is None and len(same) >= 2:
        # widen the facts: keep those entailed from an earlier visit
        g0 = same[-1]
        if len(same) < 6:
            new = {f: max(c, ge[f]) for f, c in g0.items() if f in ge}
        else:
            new = {f: c for f, c in g0.items() if f in ge and ge[f] <= c}
        if new != ge:
            ge = new
            s.note('widened facts')
    if promoted is not None:
        exprs, lows, groups = promoted
        it = iter(exprs)

        def fill(x):
            if not isinstance(x, tuple):
                return x
            if is_lin(x):
                e = next(it)
                r = e
                for a, c in x[1]:
                    r = ladd(r, ((0, ((fill(a), c),))))
                return r
            return tuple(fill(y) for y in x)
        # the same traversal order as hole()
        for t in s.th:
            for fr in t.frames:
                if fr.inbox is not None:
                    fr.inbox = fill(fr.inbox)
        vals = [fill(v) for v in vals]
        cl2 = [(fill(k), v) for k, v in cl]
        facts = fill(facts)
        nq = fill(nq)
        G['cls'] = dict(cl2)
        for n in ('alias', 'preds', 'var', 'isub', 'ssub'):
            G[n] = {}
        for n, k, v in facts:
            G[n][k] = v
        G['neq'] = {frozenset(p) for p in nq}
        # inequality facts: rewrite constants along a promoted pattern when the last row agrees
        nge = {}
        prev = ent['vecs'][:-1]
        for form, c in ge.items():
            # a fact about the element at the cursor follows the cursor
            for sym, first, base in groups if mentions_element(form) else ():
                n = reindex(form, first, latom(sym))
                if n is not None and prev and all(g2.get(reindex(form, first, lin(v2[base])), c + 1) <= c
                                                  for v2, g2, _ in prev[-1:]):
                    nge[n] = c
            for sym, first, base in groups:
                # c = -first + d  (a lower bound that follows the counter)
                d = c + first
                n = ladd((d, form), latom(sym), -1)
                okk = True
                for v2, g2, _ in ent['vecs'][:-1]:
                    if form not in g2 or g2[form] > -v2[base] + d:
                        okk = False
                if okk and len(ent['vecs']) > 1:
                    nge[n[1]] = n[0]
                    break
            else:
                if all(form in g2 and g2[form] <= c for _, g2, _ in ent['vecs'][:-1]):
                    nge[form] = c
                else:
                    # weakest of the observed constants
                    cs = [g2.get(form) for _, g2, _ in ent['vecs']]
                    if None not in cs:
                        nge[form] = max(cs)
        for sym, lo in lows:
            nge[((sym, 1),)] = -lo
        # pairwise differences of the promoted columns (a zone)
        rows = distinct + [vec]
        for i, (s1, _, j1) in enumerate(groups):
            for s2, _, j2 in groups[i + 1:]:
                ds = [r[j1] - r[j2] for r in rows]
                nge[ladd(latom(s1), latom(s2), -1)[1]] = -min(ds)
                nge[ladd(latom(s2), latom(s1), -1)[1]] = max(ds)
        ge = nge
        if len(lows) > 1:
            s.note('widened')
        # wm: recompute through cursors lazily
        nwm = {}
        for v in vals:
            def f(x):
                if len(x) == 5 and x[0] == 'sq' and is_lin(x[3]) and x[3] != lin(0):
                    o = nwm.get(x[1])
                    if o is None or ladd(x[3], o, -1)[0] < 0 and not ladd(x[3], o, -1)[1]:
                        nwm[x[1]] = x[3]
            walk(v, f)
        wm = nwm
        # the widened state has its own table entry
        s2 = rebuild(cx, s, slots, vals, G, ge, wm, forgot, keep_heap)
        return resubmit(cx, s2, seen)
    return rebuild(cx, s, slots, vals, G, ge, wm, forgot, keep_heap)


def mentions_element(form):
    hit = [False]

    def f(x):
        if len(x) == 3 and x[0] == 'el' and is_lin(x[2]):
            hit[0] = True
    walk(form, f)
    return hit[0]


def reindex(form, old, new):
    """the linear form with the elements near index `old` moved along to `new` (None: there are none)"""
    hit = [False]

    def f(x):
        if len(x) == 3 and x[0] == 'el' and is_lin(x[2]) and not x[2][1] and -3 < x[2][0] - old < 3:
            hit[0] = True
            return ('el', x[1], ladd(new, lin(x[2][0] - old)))
        return x
    r = lin(0)
    for a, c in form:
        r = ladd(r, lmul(latom(tmap(a, f)), c))
    return r[1] if hit[0] else None


def bounds_from(ge, form):
    lo = hi = 0
    for a, c in form:
        x = ge.get(((a, 1),))
        y = ge.get(((a, -1),))
        l = -x if x is not None else (0 if a[0] in ('len',) else None)
        h = y if y is not None else None
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def resubmit(cx, s, seen):
    """register a widened state: run it once through the table under its own skeleton"""
    key = ('widened',)
    return canonicalise_again(cx, s, seen)


def canonicalise_again(cx, s, seen):
    return canonicalise(cx, s, seen)


def promote(cx, rows, vec):
    """affine promotion: columns that vary get a symbol shared by columns with the same pattern"""
    n = len(vec)
    exprs = []
    syms = {}
    lows = []
    groups = []
    for j in range(n):
        col = tuple(r[j] for r in rows)
        if all(x == col[0] for x in col):
            exprs.append(lin(vec[j]))
            continue
        pat = tuple(x - col[0] for x in col)
        neg = tuple(-x for x in pat)
        if pat in syms:
            sym, base = syms[pat]
            exprs.append(ladd(latom(sym), lin(vec[j] - vec[base])))
        elif neg in syms:
            sym, base = syms[neg]
            exprs.append(ladd(lmul(latom(sym), -1), lin(vec[j] + vec[base])))
        else:
            sym = ('n', 5000 + len(syms))
            syms[pat] = (sym, j)
            exprs.append(latom(sym))
            lows.append((sym, min(col)))
            groups.append((sym, vec[j], j))
    if not syms:
        return None
    return exprs, lows, groups


def rebuild(cx, s, slots, vals, G, ge, wm, forgot, keep_heap):
    n = s.copy()
    n.heap = {}
    n.nh = len(keep_heap)
    for t in n.th:
        for fr in t.frames:
            if fr.kind == 'M':
                fr.loc = {}
    for slot, v in zip(slots, vals):
        if slot[0] == 'res':
            n.th[slot[1]].result = v
        elif slot[0] == 'ev':
            n.th[slot[1]].ev = v
        elif slot[0] == 'nat':
            n.th[slot[1]].frames[slot[2]].data = v
        elif slot[0] == 'loc':
            n.th[slot[1]].frames[slot[2]].loc[slot[3]] = v
        else:
            n.heap[slot[1]] = v
    st = n.st
    st.cls = dict(G['cls'])
    st.alias = dict(G['alias'])
    st.neq = set(G['neq'])
    st.preds = dict(G['preds'])
    st.var = dict(G['var'])
    st.isub = dict(G['isub'])
    st.ssub = dict(G['ssub'])
    st.ge = {(c, form) for form, c in ge.items()}
    st.forgot = frozenset(forgot)
    if cx.trims and forgot:
        held = set()

        def f(x):
            if len(x) == 5 and x[0] == 'm' and x[3][1] in st.forgot:
                held.add(x)
        for v in list(st.ge) + list(st.isub.items()) + vals:
            walk(v, f)
        if held:
            # what was read of the text is gone, so how much is trimmed is no longer tied to it
            n.note('characters of a trimmed text')
    n.extra = dict(s.extra)
    n.extra['wm'] = tuple(sorted(wm.items(), key=repr))
    return n
