"""Abstract transformers for the standard-library (and dependency) functions the crate calls."""
from .engine import (Unsup, Fork, PanicX, Infeasible, I, lin, latom, ladd, lmul, TRUE, FALSE, UNIT, cls_of, cls_size,
                     cls_and, cls_not, SCALAR, MAXCP)
from .db import head

M = {}
NATIVE = {}

NONE = ('adt', 0, ())
NI = NotImplemented


def some(v):
    return ('adt', 1, (v,))


def ok(v):
    return ('adt', 0, (v,))


def err(v):
    return ('adt', 1, (v,))


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def native(name):
    def d(f):
        NATIVE[name] = f
        return f
    return d


def app(cx, name, *args, ety=None):
    """an uninterpreted string/sequence valued application"""
    src = ('app', name) + tuple(cx.rterm(a) for a in args)
    return ('sq', src, cx.chty() if ety is None else ety, lin(0), latom(('len', src)))


def appstr(cx, name, *args):
    return ('str', (app(cx, name, *args),))


def ldv(c, v):
    """value behind any number of references"""
    return c.cx.strip_ref(v)


def deref(c, v):
    """one level"""
    if v[0] == 'ref':
        return v[1]
    if v[0] == 'ptr':
        return c.cx.load(v)
    return v


def progress(cx, flag):
    if flag:
        th = cx.S.th[cx.S.cur]
        th.cnt += 1
        for f in th.frames:
            f.sym = True


def is_literal(cx, v):
    return cx.lit_of(v)


# ------------------------------------------------------------------ identity-like
@model('String|Deref|deref', 'Vec|Deref|deref', 'PathBuf|Deref|deref', 'Path|AsRef|as_ref', 'String|AsRef|as_ref',
       'str|AsRef|as_ref', 'PathBuf|AsRef|as_ref', 'Vec|AsRef|as_ref', 'OsStr|AsRef|as_ref', 'OsString|Deref|deref',
       '*|Borrow|borrow', 'Box|Deref|deref', '*|AsRef|as_ref',
       'alloc::string::String::as_str', 'alloc::vec::Vec::as_slice', 'std::path::PathBuf::as_path',
       'std::path::Path::new', 'std::path::Path::as_os_str', 'core::str::<impl str>::as_str',
       'alloc::string::String::into_boxed_str', 'std::path::PathBuf::into_os_string', 'std::path::Path::as_path')
def m_id(c):
    v = c.args[0]
    if v[0] == 'ptr':
        return ('ref', c.cx.load(v))
    return v


@model('Vec|DerefMut|deref_mut', 'String|DerefMut|deref_mut', 'alloc::vec::Vec::as_mut_slice', '*|AsMut|as_mut',
       '*|BorrowMut|borrow_mut', 'Box|DerefMut|deref_mut')
def m_idmut(c):
    return c.args[0]


@model('String|Clone|clone', 'Vec|Clone|clone', 'HashMap|Clone|clone', 'HashSet|Clone|clone', 'PathBuf|Clone|clone',
       'BTreeMap|Clone|clone', 'alloc::str::<impl str>::to_owned', 'str|ToOwned|to_owned', '*|ToOwned|to_owned',
       'BTreeSet|Clone|clone', 'Box|Clone|clone', 'std::path::Path::to_path_buf', 'alloc::slice::<impl [T]>::to_vec',
       'std::ffi::os_str::OsStr::to_os_string', 'alloc::string::String::into_string', 'core::option::Option::cloned_',
       'alloc::slice::<impl [T]>::into_vec', '*|Clone|clone', 'alloc::str::<impl str>::into_string')
def m_clone(c):
    return deref(c, c.args[0])


@model('String|From|from', 'PathBuf|From|from', 'OsString|From|from')
def m_from_str(c):
    v = ldv(c, c.args[0])
    if v[0] == 'c':
        return ('str', (('e', v),))
    if v[0] == 'str':
        return v
    raise Unsup('From for %s' % v[0])


@model('T|ToString|to_string', '*|ToString|to_string', 'str|SpecToString|spec_to_string')
def m_to_string(c):
    v = ldv(c, c.args[0])
    if v[0] == 'c':
        return ('str', (('e', v),))
    if v[0] == 'str':
        return v
    if v[0] == 'i':
        l = c.cx.rl(v[1])
        if not l[1]:
            return c.cx.lit(str(l[0]))
    return appstr(c.cx, 'display', v)


@model('String|FromStr|from_str')
def m_string_from_str(c):
    return ok(ldv(c, c.args[0]))


@model('Box|From|from', 'Error|From|from')
def m_box_from(c):
    v = c.args[0]
    return ('opq', 'anyerr', v)


@model('alloc::boxed::Box::new')
def m_box_new(c):
    S = c.S
    S.nh += 1
    S.heap[S.nh] = c.args[0]
    return ('ptr', ('H', S.nh), ())


@model('alloc::boxed::Box::new_uninit')
def m_box_uninit(c):
    S = c.S
    S.nh += 1
    S.heap[S.nh] = ('top', 'uninit')
    return ('ptr', ('H', S.nh), ())


@model('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::Box::assume_init')
def m_box_vec(c):
    v = c.args[0]
    if v[0] == 'ptr':
        return c.cx.load(v)
    return v


@model('core::mem::replace')
def m_replace(c):
    old = c.cx.load(c.args[0])
    c.cx.store(c.args[0], c.args[1])
    return old


@model('core::mem::take')
def m_take(c):
    old = c.cx.load(c.args[0])
    if old[0] in ('str', 'seq'):
        c.cx.store(c.args[0], (old[0], ()))
    elif old[0] == 'map':
        c.cx.store(c.args[0], ('map', old[1], ()))
    elif old[0] == 'b':
        c.cx.store(c.args[0], FALSE)
    elif old[0] == 'i':
        c.cx.store(c.args[0], I(0))
    elif old[0] == 'adt' and c.ret_ty() is not None and c.cx.is_name(c.ret_ty(), 'Option'):
        c.cx.store(c.args[0], NONE)
    else:
        raise Unsup('mem::take')
    return old


@model('core::mem::swap')
def m_swap(c):
    a, b = c.cx.load(c.args[0]), c.cx.load(c.args[1])
    c.cx.store(c.args[0], b)
    c.cx.store(c.args[1], a)
    return UNIT


@model('core::mem::drop')
def m_drop(c):
    return UNIT


# ------------------------------------------------------------------ panics
@model('core::option::unwrap_failed', 'core::panicking::panic_fmt', 'core::panicking::panic',
       'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::panic_display',
       'core::result::unwrap_failed::unwrap_failed_inner', 'core::panicking::panic_explicit',
       'core::panicking::panic_bounds_check', 'core::panicking::unreachable_display', 'std::rt::begin_panic',
       'core::panicking::panic_nounwind', 'core::panicking::assert_failed', 'std::process::exit')
def m_panic(c):
    raise PanicX(c.fn.mkey.split('::')[-1])


# ------------------------------------------------------------------ chars
def chval(c, v):
    v = ldv(c, v)
    if v[0] != 'c':
        raise Unsup('char expected, got %s' % v[0])
    return v[1]


def rng(*ps):
    return tuple((ord(a), ord(b)) for a, b in ps)


ASCII_CLASSES = {
    'is_ascii_alphanumeric': rng(('0', '9'), ('A', 'Z'), ('a', 'z')),
    'is_ascii_alphabetic': rng(('A', 'Z'), ('a', 'z')),
    'is_ascii_digit': rng(('0', '9')),
    'is_ascii_lowercase': rng(('a', 'z')),
    'is_ascii_uppercase': rng(('A', 'Z')),
    'is_ascii_punctuation': rng(('!', '/'), (':', '@'), ('[', '`'), ('{', '~')),
    'is_ascii_graphic': rng(('!', '~')),
    'is_ascii_hexdigit': rng(('0', '9'), ('A', 'F'), ('a', 'f')),
    'is_ascii_control': ((0, 0x1f), (0x7f, 0x7f)),
    'is_ascii_whitespace': cls_of([0x20, 9, 10, 12, 13]),
    'is_ascii': ((0, 0x7f),),
    'is_whitespace': cls_of([9, 10, 11, 12, 13, 0x20, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b))
                            + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]),
    'is_control': ((0, 0x1f), (0x7f, 0x9f)),
}


def mk_class(k):
    def f(c):
        return ('b', c.cx.in_class(chval(c, c.args[0]), k))
    return f


for _n, _k in ASCII_CLASSES.items():
    M['core::char::methods::<impl char>::' + _n] = mk_class(_k)


def mk_upred(name, ascii_true):
    def f(c):
        t = c.cx.rc(chval(c, c.args[0]))
        if c.cx.in_class(t, ((0, 0x7f),)):
            return ('b', c.cx.in_class(t, ascii_true))
        if t[0] == 'k':
            ch = chr(t[1])
            return ('b', {'is_alphanumeric': ch.isalpha() or ch.isnumeric(), 'is_alphabetic': ch.isalpha(),
                          'is_numeric': ch.isnumeric(), 'is_lowercase': ch.islower(),
                          'is_uppercase': ch.isupper()}[name])
        return ('b', c.cx.pred((name, t)))
    return f


for _n, _k in (('is_alphanumeric', ASCII_CLASSES['is_ascii_alphanumeric']),
               ('is_alphabetic', ASCII_CLASSES['is_ascii_alphabetic']),
               ('is_numeric', ASCII_CLASSES['is_ascii_digit']),
               ('is_lowercase', ASCII_CLASSES['is_ascii_lowercase']),
               ('is_uppercase', ASCII_CLASSES['is_ascii_uppercase'])):
    M['core::char::methods::<impl char>::' + _n] = mk_upred(_n, _k)


@model('core::char::methods::<impl char>::is_digit')
def m_is_digit(c):
    r = c.cx.rl(c.cx.intval(c.args[1]))
    if r != lin(10):
        raise Unsup('is_digit radix')
    return ('b', c.cx.in_class(chval(c, c.args[0]), ASCII_CLASSES['is_ascii_digit']))


def u8len(cx, t):
    return cx.u8len(t)


@model('core::char::methods::<impl char>::len_utf8')
def m_len_utf8(c):
    return ('i', u8len(c.cx, chval(c, c.args[0])))


@model('core::char::methods::<impl char>::encode_utf8')
def m_encode(c):
    return ('ref', ('str', (('e', ('c', chval(c, c.args[0]))),)))


@model('core::char::methods::<impl char>::to_ascii_lowercase', 'core::char::methods::<impl char>::to_ascii_uppercase')
def m_to_ascii(c):
    t = c.cx.rc(chval(c, c.args[0]))
    low = 'lower' in c.fn.mkey
    k = ASCII_CLASSES['is_ascii_uppercase' if low else 'is_ascii_lowercase']
    return ('c', other_case(t, low) if c.cx.in_class(t, k) else t)


def other_case(t, low):
    """the other case of an ASCII letter"""
    if t[0] == 'k':
        return ('k', t[1] + (32 if low else -32))
    return ('get', 'asciicase', t)


@model('core::str::<impl str>::to_ascii_lowercase', 'core::str::<impl str>::to_ascii_uppercase',
       'alloc::str::<impl str>::to_ascii_lowercase', 'alloc::str::<impl str>::to_ascii_uppercase')
def m_str_ascii(c):
    cx = c.cx
    at = cx.ratoms(cx.str_atoms(c.args[0]))
    low = 'lower' in c.fn.mkey
    k = ASCII_CLASSES['is_ascii_uppercase' if low else 'is_ascii_lowercase']
    if all(a[0] == 'e' for a in at):
        return ('str', tuple(('e', ('c', other_case(a[1][1], low) if cx.in_class(a[1][1], k) else a[1][1])) for a in at))
    if len(at) == 1 and at[0][0] == 'sq' and whole(cx, at[0]):
        return appstr(cx, 'asciilower' if low else 'asciiupper', ('str', at))
    raise Unsup('case of a text')


@model('core::str::<impl str>::eq_ignore_ascii_case')
def m_str_eqi(c):
    f = lambda v: ('str', m_str_ascii(Lower(c, v))[1])
    return ('b', c.cx.eq(f(c.args[0]), f(c.args[1])))


class Lower:
    def __init__(self, c, v):
        self.cx, self.args, self.fn = c.cx, [v], self
        self.mkey = 'lower'


@model('core::char::methods::<impl char>::eq_ignore_ascii_case')
def m_eqi(c):
    cx = c.cx
    a, b = cx.rc(chval(c, c.args[0])), cx.rc(chval(c, c.args[1]))
    if cx.ch_eq(a, b):
        return ('b', True)
    up, low = ASCII_CLASSES['is_ascii_uppercase'], ASCII_CLASSES['is_ascii_lowercase']
    if b[0] == 'k':
        a, b = b, a
    for one, two in ((up, low), (low, up)):
        if cx.in_class(a, one):
            return ('b', cx.in_class(b, two) and cx.ch_eq(other_case(a, one is up), b))
    return ('b', False)


# ------------------------------------------------------------------ str / String
def bp(cx, src, x):
    """byte offset of character x of an opaque string"""
    x = cx.rl(x)
    for t, k in x[1]:
        if t[0] == 'm' and t[2][0] == 'cls' and t[3][0] == 'sq' and t[3][1] == src:
            # characters that were trimmed as members of a class of one size
            q = t[2][1]
            w = {1 + (c > 0x7f) + (c > 0x7ff) + (c > 0xffff) for c in (q[0][0], q[-1][1])}
            end = t[3][3] if t[1] == 'front' else t[3][4]
            if len(w) == 1 and cx.rl(ladd(end, latom(t), 1 if t[1] == 'front' else -1)) == x:
                return cx.rl(ladd(bp(cx, src, end), latom(t), w.pop() * (1 if t[1] == 'front' else -1)))
    return lin(0) if x == lin(0) else latom(('bp', src, x))


def blen(cx, atoms):
    n = lin(0)
    for a in cx.ratoms(atoms):
        if a[0] == 'e':
            n = ladd(n, u8len(cx, a[1][1]))
        elif a[0] == 'sq':
            n = ladd(n, ladd(bp(cx, a[1], a[4]), bp(cx, a[1], a[3]), -1))
        else:
            raise Unsup('byte length of summary')
    return cx.rl(n)


@model('core::str::<impl str>::len', 'alloc::string::String::len')
def m_strlen(c):
    return ('i', blen(c.cx, c.cx.str_atoms(c.args[0])))


@model('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def m_strempty(c):
    at = c.cx.str_atoms(c.args[0])
    return ('b', c.cx.uncons(at) is None)


@model('alloc::string::String::new', 'alloc::string::String::with_capacity', 'std::path::PathBuf::new')
def m_snew(c):
    return ('str', ())


@model('alloc::string::String::push')
def m_spush(c):
    t = chval(c, c.args[1])
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], ('str', v[1] + (('e', ('c', t)),)))
    return UNIT


@model('alloc::string::String::push_str', 'String|AddAssign|add_assign')
def m_spushstr(c):
    at = c.cx.str_atoms(c.args[1])
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], ('str', v[1] + at))
    return UNIT


@model('String|Add|add')
def m_sadd(c):
    return ('str', c.cx.str_atoms(c.args[0]) + c.cx.str_atoms(c.args[1]))


@model('alloc::string::String::insert')
def m_sinsert(c):
    if c.cx.rl(c.args[1][1]) != lin(0):
        raise Unsup('String::insert')
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], ('str', (('e', ('c', chval(c, c.args[2]))),) + v[1]))
    return UNIT


@model('alloc::string::String::insert_str')
def m_sinsertstr(c):
    if c.cx.rl(c.args[1][1]) != lin(0):
        raise Unsup('String::insert_str')
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], ('str', c.cx.str_atoms(c.args[2]) + v[1]))
    return UNIT


@model('alloc::string::String::clear', 'alloc::vec::Vec::clear')
def m_clear(c):
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], (v[0], ()))
    return UNIT


@model('alloc::string::String::reserve', 'alloc::vec::Vec::reserve', 'alloc::string::String::shrink_to_fit',
       'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::reserve_exact', 'std::collections::hash::map::HashMap::reserve',
       'std::collections::hash::set::HashSet::reserve')
def m_noop(c):
    return UNIT


@model('alloc::string::String::capacity', 'alloc::vec::Vec::capacity')
def m_cap(c):
    return ('i', latom(('t', ('capacity', c.S.newname()))))


@model('alloc::string::String::pop', 'alloc::vec::Vec::pop')
def m_pop(c):
    v = c.cx.load(c.args[0])
    r = c.cx.unsnoc(v[1])
    if r is None:
        c.cx.store(c.args[0], (v[0], ()))
        return NONE
    c.cx.store(c.args[0], (v[0], r[1]))
    return some(r[0])


@model('core::str::<impl str>::chars')
def m_chars(c):
    return ('it', 'chars', c.cx.str_atoms(c.args[0]))


@model('core::str::<impl str>::char_indices')
def m_charidx(c):
    return ('it', 'charidx', c.cx.str_atoms(c.args[0]), lin(0))


@model('core::str::iter::Chars::as_str')
def m_chars_as_str(c):
    return ('ref', ('str', ldv(c, c.args[0])[2]))


@model('core::str::<impl str>::repeat', 'alloc::str::<impl str>::repeat')
def m_repeat(c):
    at = c.cx.str_atoms(c.args[0])
    n = c.cx.rl(c.args[1][1])
    if not n[1] and n[0] <= 64:
        return ('str', at * max(0, n[0]))
    v = appstr(c.cx, 'repeat', ('str', at), ('i', n))
    if len(at) == 1 and at[0][0] == 'e':
        c.cx.S.st.isub[('len', v[1][0][1])] = n
        return ('str', (v[1][0][:4] + (n,),))
    return v


def pattern(c, v):
    v = ldv(c, v)
    if v[0] == 'c':
        return ('ch', c.cx.rc(v[1]))
    if v[0] == 'str':
        return ('st', c.cx.ratoms(v[1]))
    if v[0] == 'seq':
        ats = c.cx.ratoms(v[1])
        if all(a[0] == 'e' for a in ats):
            return ('set', tuple(c.cx.rc(ldv(c, a[1])[1]) for a in ats))
        raise Unsup('pattern set')
    if v[0] == 'clo' or v[0] == 'fn':
        return ('cls', pred_class(c.cx, v))
    raise Unsup('pattern %s' % v[0])


def pat_match_char(cx, p, t):
    """does the single character t match the pattern?"""
    if p[0] == 'ch':
        return cx.ch_eq(t, p[1])
    if p[0] == 'cls':
        return cx.in_class(t, p[1])
    if p[0] == 'set':
        return any(cx.ch_eq(t, x) for x in p[1])
    if p[0] == 'st':
        if len(p[1]) == 1 and p[1][0][0] == 'e':
            return cx.ch_eq(t, p[1][0][1][1])
    raise Unsup('pattern match')


_pred_memo = {}


def pred_class(cx, v):
    """the set of characters a predicate closure (or function) accepts, when it is determined: the closure is
    analysed over one symbolic character"""
    from .engine import Ctx
    if v[0] == 'fn':
        fd = cx.db.fndefs[v[1]]
        fn = cx.db.fns.get(fd.get('inst'))
        if fn is None:
            raise Unsup('closure pattern')
        n = fn.path.split('::')[-1]
        if not fn.has_body or fn.krate not in cx.own:
            if n in ASCII_CLASSES:
                return ASCII_CLASSES[n]
            raise Unsup('closure pattern')
        env = None
    else:
        c = cx.db.callables.get(v[1])
        fn = cx.db.fns.get(c and (c.get('fn') or c.get('mut') or c.get('once')))
        if fn is None or not fn.has_body:
            raise Unsup('closure pattern')
        env = ('clo', v[1], tuple(ldc(cx, u) for u in v[2]))
    key = (id(cx.db), fn.path, fn.nargs, env)
    if key in _pred_memo:
        r = _pred_memo[key]
        if r is None:
            raise Unsup('closure pattern')
        return r
    _pred_memo[key] = None
    sub = Ctx(cx.db, cx.models, None, max_states=400, max_steps=20000)
    st = sub.new_state()
    sub.S = st
    t = ('arg', 'ch')
    args = [('c', t)]
    if env is not None:
        ty = sub.ty(fn.locals[1])
        args = [('ref', env) if ty['k'] == 'ref' else env] + args
    sub.add_thread(st, 'a', fn, args)
    acc, bad = [], []

    def fin(cx2, s2):
        cx2.S = s2
        r = s2.th[0].result
        x = cx2.rc(t)
        k = ((x[1], x[1]),) if x[0] == 'k' else cx2.cls(x)
        if r[0] != 'ret' or r[1][0] != 'b' or r[1][1] not in (True, False) or s2.st.preds or s2.st.neq \
                or s2.inexact:
            bad.append(r)
        elif r[1][1]:
            acc.append(k)
    sub.run(st, fin)
    if bad or sub.stats['undecided']:
        raise Unsup('closure pattern')
    u = ()
    for k in acc:
        u = cls_not(cls_and(cls_not(u), cls_not(k)))
    _pred_memo[key] = u
    return u


def ldc(cx, u):
    """a captured value without pointers, constants only"""
    while u[0] in ('ref', 'ptr'):
        u = ('ref', u[1]) if u[0] == 'ref' else cx.load(u)
        if u[0] == 'ref':
            w = ldc(cx, u[1])
            return ('ref', w)
    if u[0] == 'c':
        k = cx.rc(u[1])
        if k[0] == 'k':
            return ('c', k)
    if u[0] == 'str' and cx.lit_of(u) is not None:
        return cx.lit(cx.lit_of(u))
    raise Unsup('closure pattern')


def trim_pat(p):
    """patterns of constant characters in one form"""
    if p[0] == 'ch' and p[1][0] == 'k':
        return ('cls', ((p[1][1], p[1][1]),))
    if p[0] == 'set' and all(x[0] == 'k' for x in p[1]):
        return ('cls', cls_of([x[1] for x in p[1]]))
    if p[0] == 'st' and len(p[1]) == 1 and p[1][0][0] == 'e' and p[1][0][1][1][0] == 'k':
        return trim_pat(('ch', p[1][0][1][1]))
    return p


def untrim(cx, a):
    """(range before trimming, front pattern, back pattern) of a range trimmed by trim_*"""
    lo, hi = a[3], a[4]
    m = [t for t, k in hi[1] if t[0] == 'm' and t[1] == 'back' and k == -1]
    back = front = None
    if len(m) == 1:
        b = m[0][3]
        if b[1] == a[1] and b[3] == lo and ladd(b[4], latom(m[0]), -1) == hi:
            back, a = m[0][2], b
            lo, hi = a[3], a[4]
    m = [t for t, k in lo[1] if t[0] == 'm' and t[1] == 'front' and k == 1]
    if len(m) == 1:
        b = m[0][3]
        if b[1] == a[1] and b[4] == hi and ladd(b[3], latom(m[0])) == lo:
            front, a = m[0][2], b
    return a, front, back


def known_trim(cx, side, p, a, ctx):
    """the unknown that stands for trimming this very range, written before facts about its bounds were learnt"""
    st = cx.S.st
    lo, hi = cx.rl(a[3]), cx.rl(a[4])
    seen = set()
    for l in [(0, ((x, 1),)) for x in st.isub] + list(st.isub.values()) + list(st.ge):
        for t, _ in l[1]:
            if t[0] == 'm' and t not in seen and t[1] == side and t[2] == p and t[4] == ctx and t[3][1] == a[1]:
                seen.add(t)
                if cx.rl(t[3][3]) == lo and cx.rl(t[3][4]) == hi:
                    return t
    return None


def trim_amount(cx, side, p, a, ctx):
    """how many characters of an opaque range are trimmed: an unknown between 0 and its length"""
    cx.trims = True
    m = known_trim(cx, side, p, a, ctx) or ('m', side, p, a, ctx)
    x, y = cx.trim_bounds(m)
    if x == y:
        return lin(x)
    if a[1] in cx.S.st.forgot:
        cx.S.note('trimming a text whose characters were forgotten')
    k = latom(m)
    n = ladd(a[4], a[3], -1)
    cx.S.st.ge.add(k)
    cx.S.st.ge.add(ladd(n, k, -1))
    return k


def trim_front(cx, p, atoms):
    """strip matching characters from the front; the amount taken off an opaque range is a symbol"""
    atoms = cx.ratoms(atoms)
    while atoms and atoms[0][0] == 'e':
        if not pat_match_char(cx, p, atoms[0][1][1]):
            return atoms
        atoms = atoms[1:]
    if not atoms:
        return ()
    a = atoms[0]
    if a[0] == 'sq' and len(atoms) == 1:
        p = trim_pat(p)
        b, f, k = untrim(cx, a)
        if f == p:
            return atoms
        if k is not None and f is None and k == p:
            # trimming with one set commutes: front first
            return trim_back(cx, k, trim_front(cx, p, (b,)))
        return (('sq', a[1], a[2], ladd(a[3], trim_amount(cx, 'front', p, a, ())), a[4]),)
    return (app(cx, 'trim_start', p, ('str', atoms)),)


def no_lf(a, p):
    """the text of an input line holds no line feed"""
    lf = ('c', ('k', 10))
    return a[0] == 'sq' and a[1] == ('app', 'stdin_text') and (p[0] == 'ch' and p[1] in (lf, lf[1]) or (
        p[0] == 'st' and tuple(p[1]) == (('e', lf),)))


def trim_back(cx, p, atoms):
    atoms = cx.ratoms(atoms)
    while atoms and atoms[-1][0] == 'e':
        if not pat_match_char(cx, p, atoms[-1][1][1]):
            return atoms
        atoms = atoms[:-1]
    if not atoms:
        return ()
    a = atoms[-1]
    if no_lf(a, p):
        return atoms
    if a[0] == 'sq' and len(atoms) == 1:
        p = trim_pat(p)
        if untrim(cx, a)[2] == p:
            return atoms
        return (('sq', a[1], a[2], a[3], ladd(a[4], trim_amount(cx, 'back', p, a, ()), -1)),)
    return (app(cx, 'trim_end', p, ('str', atoms)),)


def check_pat(p):
    if p[0] == 'pred':
        raise Unsup('closure pattern')
    return p




@model('core::str::<impl str>::trim_matches')
def m_trimm(c):
    p = check_pat(pattern(c, c.args[1]))
    at = c.cx.str_atoms(c.args[0])
    return ('ref', ('str', trim_back(c.cx, p, trim_front(c.cx, p, at))))


@model('core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_left_matches')
def m_trims(c):
    p = check_pat(pattern(c, c.args[1]))
    return ('ref', ('str', trim_front(c.cx, p, c.cx.str_atoms(c.args[0]))))


@model('core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_right_matches')
def m_trime(c):
    p = check_pat(pattern(c, c.args[1]))
    return ('ref', ('str', trim_back(c.cx, p, c.cx.str_atoms(c.args[0]))))


def ws_trim(c, front, back):
    at = c.cx.str_atoms(c.args[0])
    s = c.cx.lit_of(('str', at))
    if s is not None:
        if front:
            s = s.lstrip()
        if back:
            s = s.rstrip()
        return ('ref', c.cx.lit(s))
    p = ('cls', ASCII_CLASSES['is_whitespace'])
    if front:
        at = trim_front(c.cx, p, at)
    if back:
        at = trim_back(c.cx, p, at)
    return ('ref', ('str', at))


M['core::str::<impl str>::trim'] = lambda c: ws_trim(c, True, True)
M['core::str::<impl str>::trim_start'] = lambda c: ws_trim(c, True, False)
M['core::str::<impl str>::trim_end'] = lambda c: ws_trim(c, False, True)


@model('alloc::str::<impl str>::replace')
def m_strreplace(c):
    at = c.cx.str_atoms(c.args[0])
    p = check_pat(pattern(c, c.args[1]))
    to = c.cx.str_atoms(c.args[2])
    if not at:
        if p[0] == 'st' and not p[1]:
            return ('str', to)
        if p[0] != 'st' or all(a[0] == 'e' for a in p[1]):
            return ('str', ())
    return appstr(c.cx, 'replace', ('str', at), ('str', p[1]) if p[0] == 'st' else p, ('str', to))


@model('alloc::str::<impl str>::replacen')
def m_strreplacen(c):
    at = c.cx.str_atoms(c.args[0])
    p = check_pat(pattern(c, c.args[1]))
    return appstr(c.cx, 'replacen', ('str', at), ('str', p[1]) if p[0] == 'st' else p,
                  ('str', c.cx.str_atoms(c.args[2])), c.args[3])


def prefix_split(cx, atoms, pat, back=False):
    """remainder after stripping pat, or None"""
    atoms = cx.ratoms(atoms)
    if atoms and no_lf(atoms[-1 if back else 0], pat):
        return None
    ps = pat[1] if pat[0] == 'st' else None
    if ps is None:
        r = cx.unsnoc(atoms) if back else cx.uncons(atoms)
        if r is None:
            return None
        return r[1] if pat_match_char(cx, pat, r[0][1]) else None
    if not all(a[0] == 'e' for a in ps):
        if tuple(ps) == atoms[:len(ps)] and not back:
            return atoms[len(ps):]
        raise Unsup('symbolic pattern')
    # opaque whole string against a literal: one question
    if len(atoms) == 1 and atoms[0][0] == 'sq' and len(ps) > 1:
        a = atoms[0]
        word = ('str', tuple(ps))
        q = ('suffix' if back else 'prefix', (a[1], a[3], a[4]), word)
        # a different assumed prefix settles the question
        if not back:
            w = cx.lit_of(word)
            for p2, b in cx.S.st.preds.items():
                if b and p2[0] == 'prefix' and p2[1] == q[1]:
                    w2 = cx.lit_of(p2[2])
                    if w and w2 and not (w.startswith(w2) or w2.startswith(w)):
                        return None
        if not cx.pred(q):
            return None
        return (app(cx, 'strip_suffix' if back else 'strip_prefix', ('str', atoms), word),)
    seq = list(ps)
    if back:
        while seq:
            r = cx.unsnoc(atoms)
            if r is None or not cx.ch_eq(r[0][1], seq[-1][1][1]):
                return None
            atoms = r[1]
            seq.pop()
        return atoms
    while seq:
        r = cx.uncons(atoms)
        if r is None or not cx.ch_eq(r[0][1], seq[0][1][1]):
            return None
        atoms = r[1]
        seq.pop(0)
    return atoms


@model('core::str::<impl str>::starts_with')
def m_starts(c):
    return ('b', prefix_split(c.cx, c.cx.str_atoms(c.args[0]), check_pat(pattern(c, c.args[1]))) is not None)


@model('core::str::<impl str>::ends_with')
def m_ends(c):
    return ('b', prefix_split(c.cx, c.cx.str_atoms(c.args[0]), check_pat(pattern(c, c.args[1])), True) is not None)


@model('core::str::<impl str>::strip_prefix')
def m_stripp(c):
    r = prefix_split(c.cx, c.cx.str_atoms(c.args[0]), check_pat(pattern(c, c.args[1])))
    return NONE if r is None else some(('ref', ('str', r)))


@model('core::str::<impl str>::strip_suffix')
def m_strips(c):
    at = c.cx.str_atoms(c.args[0])
    p = check_pat(pattern(c, c.args[1]))
    if len(at) == 1 and at[0][0] == 'sq' and p[0] == 'ch' and not no_lf(at[0], p):
        q = ('suffix', (at[0][1], at[0][3], at[0][4]), ('c', p[1]))
        if not c.cx.pred(q):
            return NONE
        return some(('ref', ('str', (app(c.cx, 'strip_suffix', ('str', at), ('c', p[1])),))))
    r = prefix_split(c.cx, at, p, True)
    return NONE if r is None else some(('ref', ('str', r)))


@model('core::str::<impl str>::contains')
def m_scontains(c):
    at = c.cx.str_atoms(c.args[0])
    p = check_pat(pattern(c, c.args[1]))
    if p[0] in ('ch', 'set') and all(a[0] == 'e' for a in at):
        return ('b', any(pat_match_char(c.cx, p, a[1][1]) for a in at))
    if not at:
        return FALSE
    lit = c.cx.lit_of(('str', at))
    if lit is not None and p[0] == 'st':
        w = c.cx.lit_of(('str', p[1]))
        if w is not None:
            return ('b', w in lit)
    q = one_char(p)
    if len(at) == 1 and at[0][0] == 'sq' and q[0] == 'ch':
        # as many parts as separators, and one more
        src, full = at[0][1], at[0][3] == lin(0) and at[0][4] in (
            latom(('len', at[0][1])), c.cx.rl(latom(('len', at[0][1]))))
        if full and src[:2] == ('app', 'split_rest') and src[3] == q:
            n = app(c.cx, 'split', src[2], q, ety=str_ref_ty(c.cx))[4]
            return ('b', c.cx.ge0(ladd(n, lin(-1 - src[4][1][0]))))
        if src[0] == 'el' and src[1][:2] == ('app', 'split') and src[1][3] == q:
            return FALSE
        if full:
            n = app(c.cx, 'split', ('str', at), q, ety=str_ref_ty(c.cx))[4]
            return ('b', c.cx.ge0(ladd(n, lin(-2))))
    return ('b', c.cx.pred(('contains', ('str', at), ('str', p[1]) if p[0] == 'st' else p)))


def find_char(c, back):
    """byte offset of the first (last) character of a class: what trimming the others leaves starts (ends) there"""
    cx = c.cx
    at = cx.str_atoms(c.args[0])
    p = trim_pat(check_pat(pattern(c, c.args[1])))
    if p[0] != 'cls':
        raise Unsup('find with a pattern that is not a class of characters')
    rest = (trim_back if back else trim_front)(cx, ('cls', cls_not(p[1])), at)
    if any(a[0] != 'e' and a not in at and a[1][:1] == ('app',) and a[1][1] in ('trim_start', 'trim_end') for a in rest):
        raise Unsup('find in a text of several parts')
    r = (cx.unsnoc if back else cx.uncons)(rest)
    if r is None:
        return NONE
    t = cx.rc(r[0][1])
    if t[0] != 'k':
        k = cls_and(cx.cls(t), p[1])
        if not k:
            raise Infeasible()
        cx.set_cls(cx.S, t, k)
        t = cx.rc(t)
    n = ladd(blen(cx, rest), u8len(cx, t), -1) if back else ladd(blen(cx, at), blen(cx, rest), -1)
    return some(('i', cx.rl(n)))


@model('core::str::<impl str>::find')
def m_sfind(c):
    return find_char(c, False)


@model('core::str::<impl str>::rfind')
def m_srfind(c):
    return find_char(c, True)


def str_ref_ty(cx):
    for n in ('&str', "&'static str", "&'_ str"):
        i = cx.db.tyidx.get(n)
        if i is not None:
            return i
    raise Unsup('no &str type')


def one_char(p):
    """a pattern of one character in one form"""
    if p[0] == 'st' and len(p[1]) == 1 and p[1][0][0] == 'e':
        return ('ch', p[1][0][1][1])
    if p[0] == 'set' and len(p[1]) == 1:
        return ('ch', p[1][0])
    if p[0] == 'cls' and cls_size(p[1]) == 1:
        return ('ch', ('k', p[1][0][0]))
    return p


def m_split_generic(name):
    def f(c):
        at = c.cx.str_atoms(c.args[0])
        p = one_char(pattern(c, c.args[1])) if len(c.args) > 1 else WS
        check_pat(p)
        lit = c.cx.lit_of(('str', at))
        if lit is not None and name == 'split' and (p[0] == 'ch' and p[1][0] == 'k' or p[0] == 'st'):
            sep = chr(p[1][1]) if p[0] == 'ch' else c.cx.lit_of(('str', p[1]))
            if sep:
                return ('it', 'own', tuple(('e', ('ref', c.cx.lit(x))) for x in lit.split(sep)))
        pp = ('str', p[1]) if p[0] == 'st' else p
        return ('it', 'own', (app(c.cx, name, ('str', at), pp, ety=str_ref_ty(c.cx)),))
    return f


for _n in ('split', 'split_whitespace', 'lines', 'rsplit', 'split_terminator', 'split_ascii_whitespace',
           'split_inclusive'):
    M['core::str::<impl str>::' + _n] = m_split_generic(_n)


def first_parts(c, n, p):
    """the first n - 1 parts of a text and what follows them, or all parts when there are at most n"""
    cx = c.cx
    at = cx.str_atoms(c.args[0])
    lit = cx.lit_of(('str', at))
    p = one_char(check_pat(p))
    if lit is not None and p[0] == 'ch' and p[1][0] == 'k':
        return tuple(('e', ('ref', cx.lit(x))) for x in lit.split(chr(p[1][1]), n - 1))
    pp = ('str', p[1]) if p[0] == 'st' else p
    a = app(cx, 'split', ('str', at), pp, ety=str_ref_ty(cx))
    if cx.ge0(ladd(lin(n), a[4], -1)):
        return (a,)
    out, rest = (), (a,)
    for _ in range(n - 1):
        x, rest = cx.uncons(rest)[:2]
        out += (('e', x),)
    return out + (('e', ('ref', appstr(cx, 'split_rest', ('str', at), pp, ('i', lin(n))))),)


@model('core::str::<impl str>::splitn')
def m_splitn(c):
    n = c.cx.rl(c.args[1][1])
    if n[1] or n[0] > 8:
        raise Unsup('splitn')
    if n[0] < 2:
        return ('it', 'own', (('e', ('ref', ('str', c.cx.str_atoms(c.args[0])))),)[:n[0]])
    return ('it', 'own', first_parts(c, n[0], pattern(c, c.args[2])))


@model('core::str::<impl str>::split_once')
def m_split_once(c):
    at = first_parts(c, 2, pattern(c, c.args[1]))
    x, rest = c.cx.uncons(at)[:2]
    r = c.cx.uncons(rest)
    return NONE if r is None else some(('tup', (x, r[0])))


@model('core::str::<impl str>::to_owned', 'core::str::<impl str>::to_string')
def m_toowned(c):
    return ldv(c, c.args[0])


@model('str|PartialEq|eq', 'String|PartialEq|eq', '*|PartialEq|eq', 'PathBuf|PartialEq|eq', 'OsStr|PartialEq|eq')
def m_eq(c):
    if c.fn.has_body and c.fn.mkey not in ('str|PartialEq|eq', 'String|PartialEq|eq'):
        return NI
    return ('b', c.cx.eq(c.args[0], c.args[1]))


@model('*|PartialEq|ne', 'PartialEq::ne')
def m_ne(c):
    if c.fn.has_body and ldv(c, c.args[0])[0] not in ('str', 'c', 'i', 'b'):
        return NI
    return ('b', not c.cx.eq(c.args[0], c.args[1]))


def concrete_key(cx, v):
    """total order key of a fully concrete value, or None"""
    v = cx.strip_ref(v)
    if v[0] == 'str':
        s = cx.lit_of(v)
        return s
    if v[0] == 'c':
        t = cx.rc(v[1])
        return t[1] if t[0] == 'k' else None
    if v[0] == 'i':
        l = cx.rl(v[1])
        return l[0] if not l[1] else None
    if v[0] == 'adt':
        ks = [concrete_key(cx, x) for x in v[2]]
        return None if None in ks else (v[1],) + tuple(ks)
    if v[0] == 'tup':
        ks = [concrete_key(cx, x) for x in v[1]]
        return None if None in ks else tuple(ks)
    return None


def compare(cx, a, b):
    """-1, 0 or 1: derived order of two values; strings that are not known are compared by an uninterpreted
    total order"""
    a, b = cx.strip_ref(a), cx.strip_ref(b)
    x, y = concrete_key(cx, a), concrete_key(cx, b)
    if x is not None and y is not None:
        return (x > y) - (x < y)
    if a[0] == 'i' and b[0] == 'i':
        d = ladd(cx.rl(a[1]), cx.rl(b[1]), -1)
        return (-1 if not cx.ge0(d, True) else 0 if not cx.ge0(ladd(d, lin(-1)), True) else 1)
    if a[0] == 'sym':
        a = open_value(cx, a)
    if b[0] == 'sym':
        b = open_value(cx, b)
    if a[0] == 'str' and b[0] == 'str':
        if cx.eq(a, b):
            return 0
        u, v = cx.rterm(a), cx.rterm(b)
        flip = repr(u) > repr(v)
        p = ('strlt', v, u) if flip else ('strlt', u, v)
        if cx.known_pred(p) is None:
            if below(cx, u, v):
                return -1
            if below(cx, v, u):
                return 1
        lt = cx.pred(p, exact=False)
        return -1 if lt != flip else 1
    if a[0] == b[0] == 'adt' and a[1] == b[1] or a[0] == b[0] == 'tup':
        u, v = (a[1], b[1]) if a[0] == 'tup' else (a[2], b[2])
        for x, y in zip(u, v):
            r = compare(cx, x, y)
            if r:
                return r
        return 0
    raise Unsup('cmp of symbolic values')


def below(cx, u, v):
    """u < v by transitivity"""
    up = {}
    for p, b in cx.S.st.preds.items():
        if p[0] == 'strlt':
            x, y = cx.rterm(p[1]), cx.rterm(p[2])
            up.setdefault(x if b else y, []).append(y if b else x)
    todo, seen = [u], set()
    while todo:
        x = todo.pop()
        if x == v:
            return True
        if x not in seen:
            seen.add(x)
            todo += up.get(x, ())
    return False


def open_value(cx, v):
    v = cx.expand(v) if cx.ty(v[2])['k'] != 'adt' or len(cx.ty(v[2])['variants']) == 1 else v
    if v[0] == 'sym':
        raise Unsup('cmp of symbolic values')
    return v


def ordering(r):
    return ('adt', r + 1, ())


@model('String|Ord|cmp', '*|Ord|cmp')
def m_cmp(c):
    if c.fn.has_body and c.fn.mkey != 'String|Ord|cmp':
        return NI
    a, b = concrete_key(c.cx, c.args[0]), concrete_key(c.cx, c.args[1])
    if a is None or b is None:
        return ordering(compare(c.cx, c.args[0], c.args[1]))
    return ('adt', 0 if a < b else 1 if a == b else 2, ())


@model('alloc::string::String::from_utf8')
def m_from_utf8(c):
    v = c.args[0]
    return ok(v if v[0] == 'str' else appstr(c.cx, 'utf8', v))


# ------------------------------------------------------------------ sequences
@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'Vec|Default|default')
def m_vnew(c):
    return ('seq', ())


@model('String|Default|default')
def m_sdefault(c):
    return ('str', ())


@model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def m_vpush(c):
    v = c.cx.load(c.args[0])
    if v[0] != 'seq':
        raise Unsup('push to %s' % v[0])
    c.cx.store(c.args[0], ('seq', v[1] + (('e', c.args[1]),)))
    return UNIT


@model('alloc::vec::Vec::insert')
def m_vinsert(c):
    v = c.cx.load(c.args[0])
    i = c.cx.rl(c.args[1][1])
    if i == lin(0):
        c.cx.store(c.args[0], ('seq', (('e', c.args[2]),) + v[1]))
        return UNIT
    n = c.cx.length(v[1])
    if i == n:
        c.cx.store(c.args[0], ('seq', v[1] + (('e', c.args[2]),)))
        return UNIT
    r = c.cx.index(v[1], i)
    if r is None:
        raise PanicX('insert out of range')
    c.cx.store(c.args[0], ('seq', r[0] + (('e', c.args[2]), r[1]) + r[2]))
    return UNIT


@model('alloc::vec::Vec::remove')
def m_vremove(c):
    v = c.cx.load(c.args[0])
    r = c.cx.index(v[1], c.args[1][1])
    if r is None:
        raise PanicX('remove out of range')
    c.cx.store(c.args[0], ('seq', r[0] + r[2]))
    return r[1][1]


@model('alloc::vec::Vec::extend_from_slice')
def m_vextslice(c):
    v = c.cx.load(c.args[0])
    w = ldv(c, c.args[1])
    c.cx.store(c.args[0], ('seq', v[1] + w[1]))
    return UNIT


@model('alloc::vec::Vec::append')
def m_vappend(c):
    v = c.cx.load(c.args[0])
    w = c.cx.load(c.args[1])
    c.cx.store(c.args[0], ('seq', v[1] + w[1]))
    c.cx.store(c.args[1], ('seq', ()))
    return UNIT


@model('alloc::vec::Vec::truncate')
def m_vtrunc(c):
    v = c.cx.load(c.args[0])
    n = c.cx.rl(c.args[1][1])
    if not n[1]:
        at, out = c.cx.ratoms(v[1]), []
        k = n[0]
        while k > 0:
            r = c.cx.uncons(at)
            if r is None:
                break
            out.append(('e', r[0]))
            at = r[1]
            k -= 1
        c.cx.store(c.args[0], ('seq', tuple(out)))
        return UNIT
    raise Unsup('truncate')


@model('alloc::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::reverse')
def m_reverse(c):
    v = c.cx.load(c.args[0])
    at = c.cx.ratoms(v[1])
    if all(a[0] == 'e' for a in at):
        c.cx.store(c.args[0], ('seq', tuple(reversed(at))))
        return UNIT
    c.cx.store(c.args[0], ('seq', (app(c.cx, 'reverse', v, ety=at[0][2] if at[0][0] == 'sq' else -1),)))
    return UNIT


@model('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', '*|ExactSizeIterator|len', 'ExactSizeIterator::len',
       'csv::string_record::StringRecord::len')
def m_vlen(c):
    v = ldv(c, c.args[0])
    if v[0] == 'it':
        return ('i', c.cx.length(v[2]))
    if v[0] == 'seq':
        return ('i', c.cx.length(v[1]))
    if v[0] == 'sym':
        return ('i', c.cx.length(rec_atoms(c, v)))
    return NI


@model('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_vempty(c):
    v = ldv(c, c.args[0])
    return ('b', c.cx.uncons(v[1]) is None)


@model('core::slice::<impl [T]>::last')
def m_vlast(c):
    v = ldv(c, c.args[0])
    r = c.cx.unsnoc(v[1])
    return NONE if r is None else some(('ref', r[0]))


@model('core::slice::<impl [T]>::first')
def m_vfirst(c):
    v = ldv(c, c.args[0])
    r = c.cx.uncons(v[1])
    return NONE if r is None else some(('ref', r[0]))


@model('core::slice::<impl [T]>::split_last')
def m_vsplitlast(c):
    v = ldv(c, c.args[0])
    r = c.cx.unsnoc(v[1])
    return NONE if r is None else some(('tup', (('ref', r[0]), ('ref', ('seq', r[1])))))


@model('core::slice::<impl [T]>::split_first')
def m_vsplitfirst(c):
    v = ldv(c, c.args[0])
    r = c.cx.uncons(v[1])
    return NONE if r is None else some(('tup', (('ref', r[0]), ('ref', ('seq', r[1])))))


@model('core::slice::<impl [T]>::last_mut')
def m_vlastmut(c):
    p = c.args[0]
    v = c.cx.load(p)
    r = c.cx.unsnoc(v[1])
    if r is None:
        return NONE
    if r[2]:
        raise Unsup('last_mut of opaque')
    n = c.cx.length(r[1])
    return some(('ptr', p[1], p[2] + (('x', n),)))


@model('core::slice::<impl [T]>::contains')
def m_vcontains(c):
    v = ldv(c, c.args[0])
    x = ldv(c, c.args[1])
    if c.cx.delay and any(a[0] == 'sq' for a in c.cx.ratoms(v[1])):
        # looking for a counterexample: element by element
        c.cx.push_native('contains', ('contains', v, x), c.dest, c.target)
        return None
    return ('b', seq_contains(c.cx, v[1], x))


@native('contains')
def n_contains(cx, fr):
    _, v, x = fr.data
    if fr.sym:
        fr.sym = False
        return True
    r = cx.uncons(v[1])
    if r is None:
        return cx.native_return(('b', False))
    if cx.eq(r[0], x):
        return cx.native_return(('b', True))
    progress(cx, r[2])
    fr.data = ('contains', (v[0], r[1]), x)
    return False


def seq_contains(cx, atoms, x):
    for a in cx.ratoms(atoms):
        if a[0] == 'e':
            if cx.eq(a[1], x):
                return True
        elif a[0] == 'sq':
            if a[1][0] == 'reg':
                cx.S.note('content of a widened sequence')
            lo, hi = cx.bounds(cx.length((a,)))
            if hi is not None and hi <= 0:
                continue
            # what this says about single elements is not kept: no ground for a refutation
            if cx.pred(('in', a[1], a[3], a[4], x), exact=False):
                return True
        else:
            raise Unsup('contains in summary')
    return False


def slice_range(c, v, r):
    """sub-range of a sequence value; r is a Range-like value"""
    cx = c.cx
    at = cx.ratoms(v[1])
    n = cx.length(at)
    r = ldv(c, r)
    name = c.fn.path + ' ' + str([cx.tystr(a) for a in (c.fn.args or []) if isinstance(a, int)])
    if r[0] == 'adt' and len(r[2]) == 2 and 'RangeInclusive' not in name:
        lo, hi = cx.rl(r[2][0][1]), cx.rl(r[2][1][1])
    elif r[0] == 'adt' and len(r[2]) == 1 and 'RangeFrom' in name:
        lo, hi = cx.rl(r[2][0][1]), n
    elif r[0] == 'adt' and len(r[2]) == 1 and 'RangeTo<' in name:
        lo, hi = lin(0), cx.rl(r[2][0][1])
    elif r[0] == 'adt' and not r[2]:
        return v
    else:
        raise Unsup('range kind')
    if not cx.ge0(ladd(n, hi, -1)) or not cx.ge0(ladd(hi, lo, -1)):
        raise PanicX('slice index out of range')
    if len(at) == 1 and at[0][0] == 'sq':
        a = at[0]
        return (v[0], (('sq', a[1], a[2], ladd(a[3], lo), ladd(a[3], hi)),))
    # trim from both ends
    k = lo
    while k != lin(0):
        if k[1]:
            raise Unsup('symbolic slice start')
        q = cx.uncons(at, False)
        at = q[1]
        k = ladd(k, lin(-1))
    d = cx.rl(ladd(n, hi, -1))
    while d != lin(0):
        if d[1]:
            raise Unsup('symbolic slice end')
        q = cx.unsnoc(at, False)
        at = q[1]
        d = ladd(d, lin(-1))
    return (v[0], at)


def rec_atoms(c, v):
    """fields of a csv StringRecord symbol; the reader skips empty lines, so there is at least one"""
    src = ('fields', c.cx.rterm(v[1]))
    if ('len', src) not in c.cx.S.st.isub and src not in c.cx.S.st.forgot:
        c.cx.S.st.ge.add((-1, ((('len', src), 1),)))
    return (c.cx.sq(('fields', c.cx.rterm(v[1])), str_ref_ty(c.cx)),)


@model('Vec|Index|index', '[]|Index|index', 'StringRecord|Index|index')
def m_index(c):
    cx = c.cx
    v = ldv(c, c.args[0])
    at = rec_atoms(c, v) if v[0] == 'sym' else v[1]
    i = ldv(c, c.args[1])
    if i[0] == 'i':
        l = cx.rl(i[1])
        n = cx.length(at)
        if not cx.ge0(ladd(ladd(n, l, -1), lin(-1)), True):
            raise PanicX('index out of bounds')
        r = cx.index(at, l)
        if r is None:
            raise PanicX('index out of bounds')
        a = r[1]
        val = cx.seg_elem(a) if a[0] == 'sg' else a[1]
        if v[0] == 'sym' and val[0] == 'ref':
            return val
        return ('ref', val)
    return ('ref', slice_range(c, ('seq', at), i))


def char_cut(cx, atoms, n):
    """the text up to a byte offset, and the rest; None when the offset is not between two characters"""
    head, rest, n = (), tuple(cx.ratoms(atoms)), cx.rl(n)
    d = cx.rl(ladd(blen(cx, rest), n, -1))
    if not d[1] and n[1]:
        tail = ()
        while d != lin(0):
            if cx.bounds(d) == (0, 0):
                break
            if d[0] < 0:
                return None
            q = cx.unsnoc(rest, False)
            if q is None:
                return None
            w = u8len(cx, q[0][1])
            if not cx.ge0(ladd(d, w, -1)):
                return None
            rest, tail, d = q[1], (('e', q[0]),) + tail, cx.rl(ladd(d, w, -1))
            if d[1]:
                raise Unsup('byte offset of an unknown character')
        return rest, tail
    for _ in range(1000):
        if n == lin(0) or n[1] and cx.bounds(n) == (0, 0):
            return head, rest
        if not rest:
            return None
        a = rest[0]
        if a[0] not in ('e', 'sq'):
            raise Unsup('byte offset in a summary')
        if a[0] == 'sq':
            for t, k in n[1]:
                if k == 1 and t[0] == 'bp' and t[1] == a[1]:
                    x = t[2]
                elif t[0] == 'm' and t[3][0] == 'sq' and t[3][1] == a[1]:
                    x = ladd(t[3][3], latom(t)) if t[1] == 'front' else ladd(t[3][4], latom(t), -1)
                else:
                    continue
                if cx.rl(ladd(bp(cx, a[1], x), bp(cx, a[1], a[3]), -1)) == n:
                    if not cx.ge0(ladd(a[4], x, -1)):
                        break
                    if not cx.ge0(ladd(x, a[3], -1)):
                        return None
                    return head + ((a[:4] + (x,)),), (a[:3] + (x, a[4]),) + rest[1:]
        w = blen(cx, (a,))
        if cx.ge0(ladd(n, w, -1)):
            head, rest, n = head + (a,), rest[1:], cx.rl(ladd(n, w, -1))
            continue
        if a[0] == 'e':
            return None
        if not n[1] or a[3] == a[4]:
            q = cx.uncons(rest, False)
            if q is None:
                return None
            rest = (('e', q[0]),) + tuple(q[1])
            continue
        chars = cx.length((a,))
        if not cx.ge0(ladd(w, ladd(chars, lin(1)), -1)):        # one byte each
            x = cx.rl(ladd(a[3], n))
            return head + (a[:4] + (x,),), (a[:3] + (x, a[4]),) + rest[1:]
        if cx.pred(('boundary', a[1], a[3], n)):
            raise Unsup('byte offset of an unknown character')
        return None
    raise Unsup('byte offset')


def str_range(c, at, r):
    cx = c.cx
    n = blen(cx, at)
    name = c.fn.path + ' ' + str([cx.tystr(a) for a in (c.fn.args or []) if isinstance(a, int)])
    if r[0] != 'adt' or 'RangeInclusive' in name or 'RangeToInclusive' in name:
        raise Unsup('range kind')
    if len(r[2]) == 2:
        return cx.rl(cx.intval(r[2][0])), cx.rl(cx.intval(r[2][1]))
    if len(r[2]) == 1 and 'RangeFrom' in name:
        return cx.rl(cx.intval(r[2][0])), n
    if len(r[2]) == 1 and 'RangeTo<' in name:
        return lin(0), cx.rl(cx.intval(r[2][0]))
    if not r[2]:
        return lin(0), n
    raise Unsup('range kind')


def str_part(c, at, lo, hi):
    cx = c.cx
    if hi == cx.rl(blen(cx, at)):
        q = tuple(at), ()
    else:
        if not cx.ge0(ladd(hi, lo, -1)):
            return None
        q = char_cut(cx, at, hi)
    if q is None:
        return None
    q = char_cut(cx, q[0], lo)
    return None if q is None else q[1]


@model('str|Index|index', 'String|Index|index')
def m_str_index(c):
    cx = c.cx
    at = cx.ratoms(cx.str_atoms(c.args[0]))
    q = str_part(c, at, *str_range(c, at, ldv(c, c.args[1])))
    if q is None:
        raise PanicX('text index out of range or inside of a character')
    return ('ref', ('str', q))


@model('core::str::<impl str>::get')
def m_str_get(c):
    cx = c.cx
    at = cx.ratoms(cx.str_atoms(c.args[0]))
    q = str_part(c, at, *str_range(c, at, ldv(c, c.args[1])))
    return NONE if q is None else some(('ref', ('str', q)))


@model('core::str::<impl str>::split_at')
def m_split_at(c):
    cx = c.cx
    q = char_cut(cx, cx.str_atoms(c.args[0]), cx.intval(c.args[1]))
    if q is None:
        raise PanicX('text index out of range or inside of a character')
    return ('tup', (('ref', ('str', q[0])), ('ref', ('str', q[1]))))


@model('core::str::<impl str>::is_char_boundary')
def m_is_boundary(c):
    return ('b', char_cut(c.cx, c.cx.str_atoms(c.args[0]), c.cx.intval(c.args[1])) is not None)


@model('Vec|IndexMut|index_mut', '[]|IndexMut|index_mut')
def m_indexmut(c):
    cx = c.cx
    v = cx.load(c.args[0])
    i = ldv(c, c.args[1])
    if i[0] != 'i':
        raise Unsup('index_mut range')
    l = cx.rl(i[1])
    n = cx.length(v[1])
    if not cx.ge0(ladd(ladd(n, l, -1), lin(-1)), True):
        raise PanicX('index out of bounds')
    p = c.args[0]
    return ('ptr', p[1], p[2] + (('x', l),))


@model('core::slice::<impl [T]>::get', 'csv::string_record::StringRecord::get')
def m_sliceget(c):
    cx = c.cx
    v = ldv(c, c.args[0])
    at = rec_atoms(c, v) if v[0] == 'sym' else v[1]
    i = ldv(c, c.args[1])
    if i[0] != 'i':
        raise Unsup('get range')
    l = cx.rl(i[1])
    if not cx.ge0(ladd(ladd(cx.length(at), l, -1), lin(-1)), True):
        return NONE
    r = cx.index(at, l)
    if r is None:
        return NONE
    val = cx.seg_elem(r[1]) if r[1][0] == 'sg' else r[1][1]
    return some(val if v[0] == 'sym' and val[0] == 'ref' else ('ref', val))


@model('core::slice::<impl [T]>::get_mut')
def m_slicegetmut(c):
    cx = c.cx
    v = cx.load(c.args[0])
    l = cx.rl(ldv(c, c.args[1])[1])
    if not cx.ge0(ladd(ladd(cx.length(v[1]), l, -1), lin(-1)), True):
        return NONE
    p = c.args[0]
    return some(('ptr', p[1], p[2] + (('x', l),)))


SORT_FIELD = {'chanoma::position::Position': 'index'}     # types ordered by one field (checked by C19)


def sort_field(cx, tys):
    for t in tys:
        t = cx.ty(t) if isinstance(t, int) else {}
        if t.get('name') in SORT_FIELD:
            return [f[0] for f in t['variants'][0][2]].index(SORT_FIELD[t['name']])


def orderless(cx, at):
    """the word under a sort: the order of its parts does not matter"""
    out = []
    for a in at:
        if a[0] == 'sq' and a[1][0] == 'app' and a[1][1] in ('backwards', 'sorted') and whole(cx, a):
            out += orderless(cx, cx.ratoms(a[1][2][1]))
        else:
            out.append(a)
    return tuple(sorted(out, key=lambda a: repr(a if a[0] != 'e' else cx.rterm(cx.strip_ref(a[1])))))


def sort_model(c):
    cx = c.cx
    v = cx.load(c.args[0])
    at = cx.ratoms(v[1])
    ix = sort_field(cx, c.tyargs())
    if all(a[0] == 'e' for a in at):
        ks = [concrete_key(cx, a[1] if ix is None else cx.strip_ref(a[1])[2][ix]) for a in at]
        if None not in ks:
            order = sorted(range(len(at)), key=lambda i: ks[i])
            cx.store(c.args[0], ('seq', tuple(at[i] for i in order)))
            return UNIT
        if len(at) < 2:
            return UNIT
    if any(a[0] == 'sg' for a in at):
        raise Unsup('sorting a summarised sequence')
    if ix is None:
        at = orderless(cx, at)
    ety = -1
    for a in at:
        if a[0] == 'sq':
            ety = a[2]
    if ety == -1:
        ta = [x for x in c.tyargs() if isinstance(x, int)]
        if ta:
            ety = ta[0]
    q = app(cx, 'sorted', ('seq', at), ety=ety)
    n = cx.length(at)
    m = latom(('len', q[1]))
    if n != m:
        cx.S.st.isub[('len', q[1])] = n
    cx.store(c.args[0], ('seq', (app(cx, 'sorted', ('seq', at), ety=ety),)))
    return UNIT


M['alloc::slice::<impl [T]>::sort'] = sort_model
M['core::slice::<impl [T]>::sort_unstable'] = sort_model


@model('alloc::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def m_sort_by(c):
    return start_sort(c, 'by')


@model('alloc::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key',
       'alloc::slice::<impl [T]>::sort_by_cached_key')
def m_sort_by_key(c):
    return start_sort(c, 'key')


def start_sort(c, how):
    cx = c.cx
    v = cx.load(c.args[0])
    at = cx.ratoms(v[1])
    if any(a[0] != 'e' for a in at):
        raise Unsup('sorting a summarised sequence by a function')
    # rest to insert, inserted so far as (key, element), position under comparison
    cx.push_native('sort', ('sort', how, 'go', c.args[0], tuple(a[1] for a in at), (), 0, c.args[1]), c.dest, c.target)
    return None


@native('sort')
def n_sort(cx, fr):
    """stable insertion sort of a short sequence"""
    _, how, ph, p, rest, done, i, clo = fr.data
    if ph == 'go':
        if not rest and not i:
            cx.store(p, ('seq', tuple(('e', x[1]) for x in done)))
            return cx.native_return(UNIT)
        if how == 'key':
            fr.data = ('sort', how, 'key', p, rest, done, 0, clo)
            return cx.call_value(clo, [('ref', rest[0])], None, 0)
        if i == 0:
            fr.data = ('sort', how, 'go', p, rest[1:], done + ((UNIT, rest[0]),), len(done) + 1, clo)
            return False
        i -= 1
        if i == 0:
            fr.data = ('sort', how, 'go', p, rest, done, 0, clo)
            return False
        fr.data = ('sort', how, 'cmp', p, rest, done, i, clo)
        return cx.call_value(clo, [('ref', done[i - 1][1]), ('ref', done[i][1])], None, 0)
    if ph == 'key':
        k = fr.inbox
        j = len(done)
        while j and compare(cx, done[j - 1][0], k) > 0:
            j -= 1
        fr.inbox = None
        fr.data = ('sort', how, 'go', p, rest[1:], done[:j] + ((k, rest[0]),) + done[j:], 0, clo)
        return False
    b = fr.inbox
    if b[0] == 'sym':
        b = cx.expand(b)
    fr.inbox = None
    if b[1] == 2:
        done = done[:i - 1] + (done[i], done[i - 1]) + done[i + 1:]
        fr.data = ('sort', how, 'go', p, rest, done, i, clo)
    else:
        fr.data = ('sort', how, 'go', p, rest, done, 0, clo)
    return False


@model('alloc::vec::Vec::dedup')
def m_dedup(c):
    cx = c.cx
    v = cx.load(c.args[0])
    at = cx.ratoms(v[1])
    if all(a[0] == 'e' for a in at):
        out = []
        for a in at:
            if out and cx.eq(out[-1][1], a[1]):
                continue
            out.append(a)
        cx.store(c.args[0], ('seq', tuple(out)))
        return UNIT
    if len(at) == 1 and at[0][0] == 'sq' and at[0][1][0] == 'app' and at[0][1][1] == 'sorted' and whole(cx, at[0]):
        q = set_of(cx, at[0][1][2][1], at[0][2])
        cx.store(c.args[0], ('seq', (app(cx, 'sorted', ('seq', (q,)), ety=at[0][2]),)))
        return UNIT
    raise Unsup('dedup')


@model('alloc::slice::<impl [T]>::concat', 'alloc::slice::<impl [T]>::join')
def m_concat(c):
    cx = c.cx
    v = ldv(c, c.args[0])
    at = cx.ratoms(v[1])
    sep = cx.str_atoms(c.args[1]) if len(c.args) > 1 else ()
    if not all(a[0] == 'e' for a in at):
        return appstr(cx, 'join', v, ('str', sep))
    out = ()
    kind = 'str'
    for i, a in enumerate(at):
        x = cx.strip_ref(a[1])
        kind = x[0]
        if i:
            out += sep
        out += x[1]
    return (kind if at else 'str', out)


# ------------------------------------------------------------------ iterators
@model('core::slice::<impl [T]>::iter', 'csv::string_record::StringRecord::iter')
def m_iter(c):
    v = ldv(c, c.args[0])
    if v[0] == 'seq':
        return ('it', 'slice', c.cx.ratoms(v[1]))
    if v[0] == 'sym':
        return ('it', 'own', rec_atoms(c, v))
    raise Unsup('iter of %s' % v[0])


@model('core::slice::<impl [T]>::iter_mut')
def m_itermut(c):
    p = c.args[0]
    v = c.cx.load(p)
    return ('it', 'mut', (), p, lin(0), c.cx.length(v[1]))


def set_word(cx, hist):
    """the elements inserted, as a word"""
    out = []
    for a in hist:
        if a[0] == 'e':
            out.append(('e', a[1][0]))
        elif a[0] == 'sq' and isinstance(a[2], tuple):
            out.append(('sq', ('keys', a[1]), a[2][1], a[3], a[4]))
        else:
            out.append(a)
    return tuple(out)


def word_type(cx, at, ety=None):
    for a in at:
        if a[0] in ('sq', 'sg'):
            return a[2]
    return ety


def set_of(cx, at, ety):
    """the distinct elements of a word in no particular order, as one opaque word"""
    return app(cx, 'set', ('seq', set_args(cx, at)), ety=ety)


def set_args(cx, at):
    flat = []
    for a in cx.ratoms(at):
        if a[0] == 'sq' and a[1][0] == 'app' and a[1][1] in ('set', 'sorted', 'backwards') and whole(cx, a):
            flat += set_args(cx, a[1][2][1])
        else:
            flat.append(a if a[0] != 'e' else ('e', cx.rterm(cx.strip_ref(a[1]))))
    out = []
    for a in sorted(flat, key=repr):
        if a not in out:
            out.append(a)
    return tuple(out)


def whole(cx, a):
    return a[3] == lin(0) and cx.rl(a[4]) == cx.rl(latom(('len', a[1])))


def lazy_set(c, v, kind):
    """iteration over a set of unknown elements; None when its elements are all known"""
    cx = c.cx
    at = cx.ratoms(v[2])
    if len(at) <= 1 and all(a[0] == 'e' for a in at):
        return None
    if all(a[0] == 'e' and concrete_key(cx, a[1][0]) is not None for a in at):
        return None
    if cx.hash_rev == 'split' and cx.limit is not None and v[1] == 'hset' and all(a[0] == 'e' for a in at):
        return None
    w = set_word(cx, at)
    ety = word_type(cx, w)
    if ety is None:
        ta = [x for x in c.tyargs() if isinstance(x, int)] or [x for x in cx.ty(c.arg_ty(0)).get('args', ())
                                                             if isinstance(x, int)]
        if not ta:
            return None
        ety = ta[0]
    q = set_of(cx, w, ety)
    if v[1] == 'hset' and cx.hash_rev == 'split' and cx.reversed_hash():
        q = app(cx, 'backwards', ('seq', (q,)), ety=ety)
    if v[1] == 'bset':
        q = app(cx, 'sorted', ('seq', (q,)), ety=ety)
    return ('it', 'own' if kind == 'keyown' else 'slice', (q,))


def ordered(cx, entries):
    """entries with distinct keys, by key"""
    at = ()
    for a in entries:
        i = len(at)
        while i and compare(cx, at[i - 1][1][0], a[1][0]) > 0:
            i -= 1
        at = at[:i] + (a,) + at[i:]
    return at


def map_iter(c, v, kind):
    cx = c.cx
    if v[1] in ('hmap', 'hset') and cx.ratoms(v[2]):
        cx.stats['hash iteration'] = True
    if v[1] in ('hset', 'bset') and kind in ('keyown', 'keyref'):
        r = lazy_set(c, v, kind)
        if r is not None:
            return r
    at = cx.ratoms(v[2])
    if v[1] in ('bmap', 'bset'):
        if len(at) > 1 or at and at[0][0] == 'e':
            at2 = map_dedupe(cx, at)
            if all(a[0] == 'e' for a in at2):
                ks = [concrete_key(cx, a[1][0]) for a in at2]
                if None not in ks:
                    at = tuple(at2[i] for i in sorted(range(len(at2)), key=lambda i: ks[i]))
                else:
                    at = ordered(cx, at2)
            else:
                raise Unsup('ordered map of symbolic keys')
    else:
        at = map_dedupe(cx, at)
        if len(at) > 1 and any(a[0] == 'e' for a in at):
            cx.S.note('hash iteration order')
            if cx.reversed_hash():
                at = tuple(reversed(at))
    return ('it', kind, at)


def map_dedupe(cx, at):
    """unique keys, last value wins, first position kept"""
    if len(at) <= 1:
        return at
    if all(a[0] == 'e' for a in at):
        ks = [concrete_key(cx, a[1][0]) for a in at]
        if None not in ks:
            pos = {}
            out = []
            for k, a in zip(ks, at):
                if k in pos:
                    out[pos[k]] = ('e', (out[pos[k]][1][0], a[1][1]))
                else:
                    pos[k] = len(out)
                    out.append(a)
            return tuple(out)
        out = []
        for a in at:
            for i, b in enumerate(out):
                if cx.eq(b[1][0], a[1][0]):
                    out[i] = ('e', (b[1][0], a[1][1]))
                    break
            else:
                out.append(a)
        return tuple(out)
    raise Unsup('iteration of a partly opaque map')


@model('*|IntoIterator|into_iter')
def m_into_iter(c):
    v = c.args[0]
    if v[0] == 'it':
        return v
    if c.fn.has_body:
        if v[0] not in ('seq', 'map'):
            return NI
    if v[0] == 'seq':
        return ('it', 'own', c.cx.ratoms(v[1]))
    if v[0] == 'map':
        return map_iter(c, v, 'own' if v[1] in ('hmap', 'bmap') else 'keyown')
    if v[0] == 'ref':
        w = v[1]
        while w[0] == 'ref':
            w = w[1]
        if w[0] == 'seq':
            return ('it', 'slice', c.cx.ratoms(w[1]))
        if w[0] == 'map':
            return map_iter(c, w, 'kv' if w[1] in ('hmap', 'bmap') else 'keyref')
        if w[0] == 'sym':
            return ('it', 'kv', mapping_atoms(c, w))
        if w[0] == 'str':
            raise Unsup('path iteration')
    if v[0] == 'ptr':
        w = c.cx.load(v)
        if w[0] == 'seq':
            return ('it', 'mut', (), v, lin(0), c.cx.length(w[1]))
        if w[0] == 'map':
            return mutmap_iter(c, v, w)
        if w[0] == 'it':
            return v
    raise Unsup('into_iter of %s' % v[0])


def mapping_atoms(c, w):
    """entries of a serde_yaml Mapping symbol"""
    cx = c.cx
    term = cx.rterm(w[1])
    vt = value_ty(cx)
    src = ('entries', term)
    return (('sq', src, ('kv', vt, vt), lin(0), latom(('len', src))),)


def value_ty(cx):
    i = cx.db.tyidx.get('serde_yaml::value::Value')
    if i is None:
        i = cx.db.tyidx.get('serde_yaml::Value')
    if i is None:
        raise Unsup('no yaml value type')
    return i


def mutmap_iter(c, p, w):
    cx = c.cx
    at = map_iter(c, w, 'x')[2]
    if w[1] == 'bmap' or True:
        # positions of the surviving entries in the stored history
        if all(a[0] == 'e' for a in at) and at == cx.ratoms(w[2]):
            return ('it', 'kvmut', tuple(('e', (a[1][0], I(i))) for i, a in enumerate(at)), p)
        if all(a[0] == 'e' for a in at):
            cx.store(p, ('map', w[1], at))
            return ('it', 'kvmut', tuple(('e', (a[1][0], I(i))) for i, a in enumerate(at)), p)
    raise Unsup('iter_mut of opaque map')


@model('std::collections::hash::map::HashMap::iter', 'alloc::collections::btree::map::BTreeMap::iter',
       'serde_yaml::mapping::Mapping::iter')
def m_mapiter(c):
    v = ldv(c, c.args[0])
    if v[0] == 'sym':
        return ('it', 'kv', mapping_atoms(c, v))
    return map_iter(c, v, 'kv')


@model('std::collections::hash::map::HashMap::iter_mut', 'alloc::collections::btree::map::BTreeMap::iter_mut')
def m_mapitermut(c):
    return mutmap_iter(c, c.args[0], c.cx.load(c.args[0]))


@model('std::collections::hash::map::HashMap::keys', 'alloc::collections::btree::map::BTreeMap::keys',
       'std::collections::hash::set::HashSet::iter', 'alloc::collections::btree::set::BTreeSet::iter')
def m_keys(c):
    return map_iter(c, ldv(c, c.args[0]), 'keyref')


@model('std::collections::hash::map::HashMap::values', 'alloc::collections::btree::map::BTreeMap::values')
def m_values(c):
    return map_iter(c, ldv(c, c.args[0]), 'valref')


def it_wrap(cx, it, x):
    k = it[1]
    if k in ('chars', 'own'):
        if k == 'own' and isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple):
            return ('tup', x)
        return x
    if k == 'slice':
        return ('ref', x)
    if isinstance(x, tuple) and x and x[0] == 'tup' and k in ('kv', 'keyref', 'valref', 'keyown'):
        x = x[1]
    if k == 'kv':
        return ('tup', (('ref', x[0]), ('ref', x[1])))
    if k == 'keyref':
        return ('ref', x[0])
    if k == 'keyown':
        return x[0]
    if k == 'valref':
        return ('ref', x[1])
    if k == 'kvmut':
        p = it[3]
        return ('tup', (('ref', x[0]), ('ptr', p[1], p[2] + (('mv', x[1][1][0]),))))
    raise Unsup('iterator kind %s' % k)


def it_next(cx, p):
    """advance the native iterator stored at pointer p; returns the Option value"""
    it = cx.load(p)
    k = it[1]
    if k == 'mut':
        lo, hi = cx.rl(it[4]), cx.rl(it[5])
        if not cx.ge0(ladd(ladd(hi, lo, -1), lin(-1)), True):
            return NONE
        progress(cx, bool(hi[1]))
        q = it[3]
        cx.store(p, ('it', 'mut', (), q, ladd(lo, lin(1)), hi))
        return some(('ptr', q[1], q[2] + (('x', lo),)))
    if k == 'range':
        lo, hi = cx.rl(it[3]), cx.rl(it[4])
        if not cx.ge0(ladd(ladd(hi, lo, -1), lin(-1)), True):
            return NONE
        progress(cx, bool(hi[1]))
        cx.store(p, ('it', 'range', (), ladd(lo, lin(1)), hi))
        return some(('i', lo))
    r = cx.uncons(it[2])
    if r is None:
        cx.store(p, it[:2] + ((),) + it[3:])
        return NONE
    x, rest, symb = r
    if k == 'charidx':
        off = it[3]
        cx.store(p, ('it', 'charidx', rest, ladd(off, u8len(cx, x[1]))))
        progress(cx, symb)
        return some(('tup', (('i', cx.rl(off)), x)))
    v = it_wrap(cx, it, x)
    cx.store(p, it[:2] + (rest,) + it[3:])
    progress(cx, symb)
    return some(v)


def it_next_back(cx, p):
    it = cx.load(p)
    k = it[1]
    if k in ('mut', 'range', 'charidx'):
        raise Unsup('next_back of %s' % k)
    r = cx.unsnoc(it[2])
    if r is None:
        return NONE
    x, rest, symb = r
    v = it_wrap(cx, it, x)
    cx.store(p, it[:2] + (rest,) + it[3:])
    progress(cx, symb)
    return some(v)


@model('*|Iterator|next')
def m_next(c):
    p = c.args[0]
    if p[0] != 'ptr':
        return NI
    v = c.cx.load(p)
    if v[0] == 'ptr' and c.cx.load(v)[0] == 'it':
        return it_next(c.cx, v)
    if v[0] == 'it':
        return it_next(c.cx, p)
    # ranges of integers
    if v[0] == 'adt' and head(c.fn.implfor or '') == 'Range' and len(v[2]) == 2 and v[2][0][0] == 'i':
        cx = c.cx
        lo, hi = cx.rl(v[2][0][1]), cx.rl(cx.intval(v[2][1]))
        if not cx.ge0(ladd(ladd(hi, lo, -1), lin(-1)), True):
            return NONE
        progress(cx, bool(hi[1]) or bool(lo[1]))
        cx.store(p, ('adt', v[1], (('i', ladd(lo, lin(1))), v[2][1])))
        return some(('i', lo))
    if c.fn.has_body:
        return NI
    raise Unsup('next of %s (%s)' % (v[0], c.fn.mkey))


@model('*|DoubleEndedIterator|next_back')
def m_next_back(c):
    p = c.args[0]
    v = c.cx.load(p) if p[0] == 'ptr' else p
    if v[0] == 'it':
        return it_next_back(c.cx, p)
    if c.fn.has_body:
        return NI
    raise Unsup('next_back of %s' % v[0])


@model('Iterator::last')
def m_last(c):
    it = ldv(c, c.args[0])
    if it[0] != 'it' or it[1] not in ('slice', 'own', 'chars', 'keyref', 'valref'):
        return NI
    r = c.cx.unsnoc(it[2])
    return NONE if r is None else some(it_wrap(c.cx, it, r[0]))


@model('Iterator::count')
def m_count(c):
    it = ldv(c, c.args[0])
    if it[0] != 'it' or it[1] not in ('slice', 'own', 'chars', 'keyref', 'valref'):
        return NI
    return ('i', c.cx.length(it[2]))


@model('Iterator::nth', '*|Iterator|nth')
def m_nth(c):
    cx = c.cx
    p = c.args[0]
    it = ldv(c, p)
    if it[0] != 'it' or it[1] not in ('slice', 'own', 'chars', 'keyref', 'valref') or c.args[1][0] != 'i':
        return NI
    r = cx.index(it[2], c.args[1][1])
    if r is None:
        cx.store(p, it[:2] + ((),) + it[3:])
        return NONE
    if r[1][0] != 'e':
        raise Unsup('nth inside a summary')
    cx.store(p, it[:2] + (r[2],) + it[3:])
    return some(it_wrap(cx, it, r[1][1]))


@model('*|Iterator|size_hint', 'Iterator::size_hint')
def m_size_hint(c):
    return ('tup', (I(0), NONE))


# ---- collect / extend
def iter_ty(c):
    ta = [x for x in (c.fn.args or []) if isinstance(x, int)]
    if not ta:
        ta = [x for x in c.tyargs() if isinstance(x, int)]
    return ta[-1]


def start_collect(c, kind, it, acc, dest_ptr=None):
    cx = c.cx
    S = c.S
    ity = iter_ty(c)
    phase = 'next'
    if it[0] == 'seq':
        it = ('it', 'own', cx.ratoms(it[1]))
    elif it[0] == 'map':
        it = map_iter(c, it, 'own' if it[1] in ('hmap', 'bmap') else 'keyown')
    elif it[0] == 'ref' and it[1][0] in ('seq', 'map'):
        w = it[1]
        it = ('it', 'slice', cx.ratoms(w[1])) if w[0] == 'seq' else \
            map_iter(c, w, 'kv' if w[1] in ('hmap', 'bmap') else 'keyref')
    elif it[0] == 'str' or it[0] == 'ref' and it[1][0] == 'str':
        raise Unsup('collect from string')
    # fast paths: the whole remaining word
    if it[0] == 'it':
        ats = cx.ratoms(it[2])
        if kind == 'vec' and it[1] in ('own', 'chars'):
            if not any(isinstance(a[1], tuple) and a[0] == 'e' and len(a[1]) == 2 and isinstance(a[1][0], tuple)
                       for a in ats):
                return fin_collect(c, kind, ('seq', acc + ats), dest_ptr)
        if kind == 'string' and (it[1] == 'chars' or it[1] == 'own' and
                                 all(a[0] == 'e' and a[1][0] == 'c' or a[0] in ('sq', 'sg') and a[2] in
                                     (cx.chty(), ) for a in ats)):
            return fin_collect(c, kind, ('str', acc + ats), dest_ptr)
        if kind == 'vec' and it[1] == 'slice' and all(a[0] == 'e' for a in ats):
            return fin_collect(c, kind, ('seq', acc + tuple(('e', ('ref', a[1])) for a in ats)), dest_ptr)
    # collecting a flattened list of lists at once is concatenating them
    w = flat_words(cx, ity, it) if kind == 'vec' else None
    if w is not None:
        return fin_collect(c, kind, ('seq', acc + w), dest_ptr)
    info = cx.db.iters.get(ity)
    nextkey = None
    if it[0] != 'it':
        if info is None:
            raise Unsup('no iterator info for %s' % cx.tystr(ity))
        if 'next' in info:
            nextkey = info['next']
        else:
            phase = 'into'
    if it[0] == 'ptr':
        cell = it
    else:
        S.nh += 1
        S.heap[S.nh] = it
        cell = ('ptr', ('H', S.nh), ())
    return cx.push_native('collect', ('collect', phase, kind, cell, ('ity', nextkey or '', ity), acc_pack(kind, acc),
                                      dest_ptr or UNIT), c.dest, c.target)


def flat_words(cx, ity, it):
    t = cx.ty(ity)
    if it[0] != 'adt' or t['k'] != 'adt' or t['name'].split('::')[-1] != 'Flatten':
        return None
    try:
        compat = it[2][0]
        fuse, front, back = compat[2]
        if front[1] != 0 or back[1] != 0 or fuse[2][0][0] != 'adt' or fuse[2][0][1] != 1:
            return None
        inner = fuse[2][0][2][0]
    except (IndexError, TypeError):
        return None
    if inner[0] != 'it' or inner[1] != 'own':
        return None
    out = ()
    for a in cx.ratoms(inner[2]):
        if a[0] != 'e' or a[1][0] != 'seq':
            return None
        out += cx.ratoms(a[1][1])
    return out


def acc_pack(kind, acc):
    if kind in ('string',):
        return ('str', acc)
    if kind == 'vec':
        return ('seq', acc)
    return ('map', kind, acc)


def fin_collect(c, kind, v, dest_ptr):
    if dest_ptr is not None:
        c.cx.store(dest_ptr, v)
        return UNIT
    return v


@native('collect')
def n_collect(cx, fr):
    _, phase, kind, cell, (_, nextkey, ity), acc, dp = fr.data
    if phase == 'into':
        if fr.inbox is None:
            info = cx.db.iters[ity]
            fr.data = ('collect', 'into2', kind, cell, ('ity', nextkey, ity), acc, dp)
            v = cx.load(cell)
            return cx.invoke_key(info['into_iter'], [v], None, 0, None)
    if phase == 'into2':
        v = fr.inbox
        fr.inbox = None
        info = cx.db.iters[ity]
        ity2 = info['into_iter_ty']
        nk = cx.db.iters.get(ity2, {}).get('next', '')
        if v[0] in ('ptr',) and cx.load(v)[0] == 'it':
            cell = v
        else:
            cx.store(cell, v)
        fr.data = ('collect', 'next', kind, cell, ('ity', nk, ity2), acc, dp)
        return False
    if phase == 'next':
        if fr.sym:
            fr.sym = False
            return True            # yield: one symbolic element was consumed
        it = cx.load(cell)
        if it[0] == 'it':
            o = it_next(cx, cell)
            fr.inbox = o
            fr.data = ('collect', 'got', kind, cell, ('ity', nextkey, ity), acc, dp)
            return False
        if not nextkey:
            raise Unsup('collect: no next for %s' % cx.tystr(ity))
        fr.data = ('collect', 'got', kind, cell, ('ity', nextkey, ity), acc, dp)
        try:
            return cx.invoke_key(nextkey, [cell], None, 0, None)
        except Fork:
            fr.data = ('collect', 'next', kind, cell, ('ity', nextkey, ity), acc, dp)
            raise
    if phase == 'got':
        o = fr.inbox
        if o is None:
            raise Unsup('collect protocol')
        if o[0] == 'sym':
            v = cx.variant(o[1], o[2])
            o = cx.open_sym(o, v)
        if o[1] == 0:
            fr.inbox = None
            if dp != UNIT:
                cx.store(dp, acc)
                return cx.native_return(UNIT)
            return cx.native_return(acc)
        x = o[2][0]
        if kind == 'string':
            acc = ('str', acc[1] + cx.str_atoms(x))
        elif kind == 'vec':
            acc = ('seq', acc[1] + (('e', x),))
        elif kind in ('hset', 'bset'):
            acc = ('map', kind, acc[2] + (('e', (x, UNIT)),))
        else:
            if x[0] != 'tup':
                raise Unsup('map element')
            acc = ('map', kind, acc[2] + (('e', (x[1][0], x[1][1])),))
        fr.inbox = None
        fr.data = ('collect', 'next', kind, cell, ('ity', nextkey, ity), acc, dp)
        return False
    raise Unsup('collect phase')


M['Vec|FromIterator|from_iter'] = lambda c: start_collect(c, 'vec', c.args[0], ())
M['String|FromIterator|from_iter'] = lambda c: start_collect(c, 'string', c.args[0], ())
M['HashMap|FromIterator|from_iter'] = lambda c: start_collect(c, 'hmap', c.args[0], ())
M['HashSet|FromIterator|from_iter'] = lambda c: start_collect(c, 'hset', c.args[0], ())
M['BTreeMap|FromIterator|from_iter'] = lambda c: start_collect(c, 'bmap', c.args[0], ())
M['BTreeSet|FromIterator|from_iter'] = lambda c: start_collect(c, 'bset', c.args[0], ())
M['Box|FromIterator|from_iter'] = lambda c: start_collect(c, 'vec', c.args[0], ())


@model('Vec|Extend|extend', 'String|Extend|extend', 'HashMap|Extend|extend', 'HashSet|Extend|extend',
       'BTreeMap|Extend|extend', 'BTreeSet|Extend|extend')
def m_extend(c):
    cur = c.cx.load(c.args[0])
    kind = {'seq': 'vec', 'str': 'string'}.get(cur[0]) or cur[1]
    acc = cur[1] if cur[0] in ('seq', 'str') else cur[2]
    if kind == 'vec':
        # Vec<T>: Extend<&T> copies its elements
        it = c.args[1]
        tr = c.fn.traitref or ''
        if it[0] == 'it' and it[1] == 'slice' and 'Extend<&' in tr:
            c.cx.store(c.args[0], ('seq', acc + c.cx.ratoms(it[2])))
            return UNIT
        if it[0] == 'ref' and it[1][0] == 'seq' and 'Extend<&' in tr:
            c.cx.store(c.args[0], ('seq', acc + c.cx.ratoms(it[1][1])))
            return UNIT
    return start_collect(c, kind, c.args[1], acc, c.args[0])


# ------------------------------------------------------------------ maps
@model('std::collections::hash::map::HashMap::new', 'HashMap|Default|default',
       'std::collections::hash::map::HashMap::with_capacity')
def m_hmnew(c):
    return ('map', 'hmap', ())


@model('std::collections::hash::set::HashSet::new', 'HashSet|Default|default',
       'std::collections::hash::set::HashSet::with_capacity')
def m_hsnew(c):
    return ('map', 'hset', ())


@model('alloc::collections::btree::map::BTreeMap::new', 'BTreeMap|Default|default')
def m_bmnew(c):
    return ('map', 'bmap', ())


@model('alloc::collections::btree::set::BTreeSet::new', 'BTreeSet|Default|default')
def m_bsnew(c):
    return ('map', 'bset', ())


def map_find(cx, m, key):
    if m[0] != 'map':
        raise Unsup('map operation on %s %s' % (m[0], m[1]))
    # ('e', index, value) | ('o', value) | None
    at = cx.ratoms(m[2])
    at = m[2] if len(at) == len(m[2]) else at
    for i in range(len(at) - 1, -1, -1):
        a = at[i]
        if a[0] == 'e':
            if cx.eq(a[1][0], key):
                return ('e', i, a[1][1])
        elif a[0] == 'sq':
            if a[1][0] == 'reg':
                cx.S.note('content of a widened map')
            if cx.pred(('has', a[1], cx.strip_ref(key))):
                ety = a[2]
                if isinstance(ety, tuple) and ety[0] == 'kv':
                    if ety[2] is None:
                        return ('o', UNIT)
                    return ('o', cx.mk_sym(('get', a[1], cx.rterm(cx.strip_ref(key))), ety[2]))
                return ('o', ('top', 'value of a widened map'))
        else:
            raise Unsup('lookup in summary map')
    return None


def map_key(cx, m, key):
    pass


@model('std::collections::hash::map::HashMap::get', 'alloc::collections::btree::map::BTreeMap::get')
def m_mapget(c):
    m = ldv(c, c.args[0])
    if m[0] != 'map':
        raise Unsup('get on %s' % m[0])
    r = map_find(c.cx, m, c.args[1])
    return NONE if r is None else some(('ref', r[-1]))


@model('HashMap|Index|index', 'BTreeMap|Index|index')
def m_mapindex(c):
    m = ldv(c, c.args[0])
    r = map_find(c.cx, m, c.args[1])
    if r is None:
        raise PanicX('map index')
    return ('ref', r[-1])


@model('std::collections::hash::map::HashMap::get_mut', 'alloc::collections::btree::map::BTreeMap::get_mut')
def m_mapgetmut(c):
    p = c.args[0]
    m = c.cx.load(p)
    r = map_find(c.cx, m, c.args[1])
    if r is None:
        return NONE
    if r[0] != 'e':
        raise Unsup('get_mut of opaque')
    return some(('ptr', p[1], p[2] + (('mv', r[1]),)))


@model('std::collections::hash::set::HashSet::get', 'alloc::collections::btree::set::BTreeSet::get')
def m_setget(c):
    m = ldv(c, c.args[0])
    r = map_find(c.cx, m, c.args[1])
    return NONE if r is None else some(('ref', ldv(c, c.args[1])))


@model('std::collections::hash::map::HashMap::contains_key', 'std::collections::hash::set::HashSet::contains',
       'alloc::collections::btree::map::BTreeMap::contains_key', 'alloc::collections::btree::set::BTreeSet::contains')
def m_contains(c):
    m = ldv(c, c.args[0])
    return ('b', map_find(c.cx, m, c.args[1]) is not None)


@model('std::collections::hash::map::HashMap::insert', 'alloc::collections::btree::map::BTreeMap::insert')
def m_mapinsert(c):
    p = c.args[0]
    m = c.cx.load(p)
    c.cx.store(p, ('map', m[1], m[2] + (('e', (c.args[1], c.args[2])),)))
    return ('top', 'previous value')


@model('std::collections::hash::set::HashSet::insert', 'alloc::collections::btree::set::BTreeSet::insert')
def m_setinsert(c):
    p = c.args[0]
    m = c.cx.load(p)
    c.cx.store(p, ('map', m[1], m[2] + (('e', (c.args[1], UNIT)),)))
    return ('lazyins',)


@model('std::collections::hash::map::HashMap::len', 'std::collections::hash::set::HashSet::len',
       'alloc::collections::btree::map::BTreeMap::len', 'alloc::collections::btree::set::BTreeSet::len')
def m_maplen(c):
    m = ldv(c, c.args[0])
    at = map_dedupe(c.cx, c.cx.ratoms(m[2]))
    return ('i', c.cx.length(at))


@model('std::collections::hash::map::HashMap::is_empty', 'std::collections::hash::set::HashSet::is_empty',
       'alloc::collections::btree::map::BTreeMap::is_empty', 'serde_yaml::mapping::Mapping::is_empty')
def m_mapempty(c):
    m = ldv(c, c.args[0])
    at = mapping_atoms(c, m) if m[0] == 'sym' else m[2]
    return ('b', c.cx.uncons(at) is None)


@model('std::collections::hash::map::HashMap::remove', 'std::collections::hash::set::HashSet::remove',
       'alloc::collections::btree::map::BTreeMap::remove')
def m_mapremove(c):
    p = c.args[0]
    m = c.cx.load(p)
    at = c.cx.ratoms(m[2])
    if not all(a[0] == 'e' for a in at):
        raise Unsup('remove from opaque map')
    r = map_find(c.cx, m, c.args[1])
    if r is None:
        return FALSE if m[1] in ('hset', 'bset') else NONE
    keep = tuple(a for a in at if not c.cx.eq(a[1][0], c.args[1]))
    c.cx.store(p, ('map', m[1], keep))
    return TRUE if m[1] in ('hset', 'bset') else some(r[-1])


@model('std::collections::hash::map::HashMap::entry', 'alloc::collections::btree::map::BTreeMap::entry')
def m_entry(c):
    return ('opq', 'entry', c.args[0], c.args[1])


def entry_slot(c, e):
    p, key = e[2], e[3]
    m = c.cx.load(p)
    r = map_find(c.cx, m, key)
    if r is not None:
        if r[0] != 'e':
            raise Unsup('entry of opaque map')
        return ('ptr', p[1], p[2] + (('mv', r[1]),))
    return None


def entry_insert(cx, e, v):
    p, key = e[2], e[3]
    m = cx.load(p)
    n = len(m[2])
    cx.store(p, ('map', m[1], m[2] + (('e', (key, v)),)))
    return ('ptr', p[1], p[2] + (('mv', n),))


@model('std::collections::hash::map::Entry::or_insert_with', 'alloc::collections::btree::map::entry::Entry::or_insert_with')
def m_or_insert_with(c):
    e = c.args[0]
    s = entry_slot(c, e)
    if s is not None:
        return s
    cx = c.cx
    cx.push_native('or_insert', ('or_insert', e, c.args[1]), c.dest, c.target)
    return None


@native('or_insert')
def n_or_insert(cx, fr):
    if fr.inbox is None:
        return cx.call_value(fr.data[2], [], None, 0)
    v = fr.inbox
    p = entry_insert(cx, fr.data[1], v)
    return cx.native_return(p)


@model('std::collections::hash::map::Entry::or_insert', 'alloc::collections::btree::map::entry::Entry::or_insert')
def m_or_insert(c):
    s = entry_slot(c, c.args[0])
    return s if s is not None else entry_insert(c.cx, c.args[0], c.args[1])


@model('std::collections::hash::map::Entry::or_default', 'alloc::collections::btree::map::entry::Entry::or_default')
def m_or_default(c):
    s = entry_slot(c, c.args[0])
    if s is not None:
        return s
    t = c.ret_ty()
    ty = c.cx.ty(t)
    inner = c.cx.ty(ty['to']) if ty['k'] == 'ref' else ty
    n = inner.get('name', inner['s']).split('::')[-1]
    d = {'Vec': ('seq', ()), 'String': ('str', ()), 'HashMap': ('map', 'hmap', ()), 'HashSet': ('map', 'hset', ()),
         'BTreeMap': ('map', 'bmap', ()), 'BTreeSet': ('map', 'bset', ()), 'usize': I(0)}.get(n)
    if d is None:
        raise Unsup('or_default of %s' % n)
    return entry_insert(c.cx, c.args[0], d)


@model('HashMap|PartialEq|eq', 'HashSet|PartialEq|eq')
def m_mapeq(c):
    raise Unsup('map equality')


# ------------------------------------------------------------------ Vec::retain and friends
@model('alloc::vec::Vec::retain', 'alloc::string::String::retain')
def m_retain(c):
    cx = c.cx
    v = cx.load(c.args[0])
    cx.push_native('retain', ('retain', 'go', c.args[0], v, (v[0], ()), c.args[1], UNIT), c.dest, c.target)
    return None


@native('retain')
def n_retain(cx, fr):
    _, ph, p, rest, acc, clo, x = fr.data
    if ph == 'go':
        if fr.sym:
            fr.sym = False
            return True
        r = cx.uncons(rest[1])
        if r is None:
            cx.store(p, acc)
            return cx.native_return(UNIT)
        progress(cx, r[2])
        a = r[0] if rest[0] == 'str' else ('ref', r[0])
        fr.data = ('retain', 'ans', p, (rest[0], r[1]), acc, clo, r[0])
        return cx.call_value(clo, [a], None, 0)
    b = fr.inbox
    if b[0] == 'sym':
        b = cx.expand(b)
    fr.inbox = None
    if b[1]:
        acc = (acc[0], acc[1] + (('e', x),))
    fr.data = ('retain', 'go', p, rest, acc, clo, UNIT)
    return False


@model('*|Iterator|any', '*|Iterator|all')
def m_any(c):
    cx = c.cx
    p = c.args[0]
    if p[0] != 'ptr' or cx.load(p)[0] != 'it':
        return NI
    cx.push_native('any', ('any', 'go', c.fn.mkey.rsplit('|', 1)[1], p, c.args[1]), c.dest, c.target)
    return None


@native('any')
def n_any(cx, fr):
    _, ph, which, cell, clo = fr.data
    if ph == 'go':
        if fr.sym:
            fr.sym = False
            return True
        o = it_next(cx, cell)
        if o[1] == 0:
            return cx.native_return(('b', which == 'all'))
        fr.data = ('any', 'ans', which, cell, clo)
        return cx.call_value(clo, [o[2][0]], None, 0)
    b = fr.inbox
    if b[0] == 'sym':
        b = cx.expand(b)
    fr.inbox = None
    if b[1] == (which == 'any'):
        return cx.native_return(('b', which == 'any'))
    fr.data = ('any', 'go', which, cell, clo)
    return False


@model('alloc::vec::Vec::dedup_by')
def m_dedup_by(c):
    cx = c.cx
    v = cx.load(c.args[0])
    cx.push_native('dedup', ('dedup', 'go', c.args[0], v, (v[0], ()), c.args[1], UNIT, UNIT), c.dest, c.target)
    return None


@model('alloc::vec::Vec::dedup_by_key')
def m_dedup_by_key(c):
    cx = c.cx
    v = cx.load(c.args[0])
    cx.push_native('dedup', ('dedup', 'go', c.args[0], v, (v[0], ()), c.args[1], UNIT, ('none',)), c.dest, c.target)
    return None


@native('dedup')
def n_dedup(cx, fr):
    # key: UNIT for a relation; otherwise the key of the last element kept
    _, ph, p, rest, acc, clo, x, key = fr.data
    if ph == 'go':
        if fr.sym:
            fr.sym = False
            return True
        r = cx.uncons(rest[1])
        if r is None:
            cx.store(p, acc)
            return cx.native_return(UNIT)
        progress(cx, r[2])
        y = r[0]
        if key == UNIT:
            if x == UNIT:
                fr.data = ('dedup', 'go', p, (rest[0], r[1]), (acc[0], acc[1] + (('e', y),)), clo, y, key)
                return False
            fr.data = ('dedup', 'ans', p, (rest[0], r[1]), acc, clo, (x, y), key)
            return cx.call_value(clo, [('ref', y), ('ref', x)], None, 0)
        fr.data = ('dedup', 'key', p, (rest[0], r[1]), acc, clo, y, key)
        return cx.call_value(clo, [('ref', y)], None, 0)
    b = fr.inbox
    if ph == 'ans':
        if b[0] == 'sym':
            b = cx.expand(b)
        fr.inbox = None
        x, y = x
        if not b[1]:
            acc, x = (acc[0], acc[1] + (('e', y),)), y
    else:
        same = key != ('none',) and cx.eq(b, key)
        fr.inbox = None
        if not same:
            acc, key = (acc[0], acc[1] + (('e', x),)), b
        x = UNIT
    fr.data = ('dedup', 'go', p, rest, acc, clo, x, key)
    return False


# ------------------------------------------------------------------ misc std
@model('std::env::var')
def m_env_var(c):
    k = ('str', c.cx.str_atoms(c.args[0]))
    if c.cx.pred(('env_set', k)):
        return ok(appstr(c.cx, 'env', k))
    return err(('top', 'VarError'))


@model('std::env::var_os')
def m_env_var_os(c):
    k = ('str', c.cx.str_atoms(c.args[0]))
    if c.cx.pred(('env_set', k)):
        return some(appstr(c.cx, 'env', k))
    return NONE


@model('std::env::set_var')
def m_set_var(c):
    c.cx.event(('set_var', ('str', c.cx.str_atoms(c.args[0])), ('str', c.cx.str_atoms(c.args[1]))))
    return UNIT


@model('std::env::current_dir')
def m_cwd(c):
    if c.cx.pred(('cwd_ok',)):
        return ok(appstr(c.cx, 'cwd'))
    return err(('top', 'io::Error'))


@model('dirs::home_dir')
def m_home(c):
    if c.cx.pred(('home_ok',)):
        return some(appstr(c.cx, 'home'))
    return NONE


def path_join(cx, a, b):
    lb = cx.lit_of(('str', b))
    if lb is None:
        return (app(cx, 'join', ('str', a), ('str', b)),)
    if lb.startswith('/'):
        return b
    la = cx.lit_of(('str', a))
    if la is not None and (la == '' or la.endswith('/')):
        return a + b
    return a + cx.lit('/')[1] + b


@model('std::path::PathBuf::push')
def m_pathpush(c):
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], ('str', path_join(c.cx, c.cx.ratoms(v[1]), c.cx.str_atoms(c.args[1]))))
    return UNIT


@model('std::path::Path::join')
def m_pathjoin(c):
    return ('str', path_join(c.cx, c.cx.str_atoms(c.args[0]), c.cx.str_atoms(c.args[1])))


def split_ext(cx, atoms):
    """(stem atoms incl. directory, extension string or None) when the file name is literal"""
    atoms = cx.ratoms(atoms)
    name = []
    i = len(atoms)
    while i > 0:
        a = atoms[i - 1]
        if a[0] != 'e':
            break
        t = cx.rc(a[1][1])
        if t[0] != 'k':
            break
        if t[1] == ord('/'):
            break
        name.insert(0, chr(t[1]))
        i -= 1
    if i > 0 and (atoms[i - 1][0] != 'e' or cx.rc(atoms[i - 1][1][1]) != ('k', ord('/'))):
        return None
    s = ''.join(name)
    if s in ('', '..'):
        return None
    k = s.rfind('.')
    if k <= 0:
        return atoms, None
    return atoms[:i + k], s[k + 1:]


def set_ext(c, atoms, ext):
    r = split_ext(c.cx, atoms)
    if r is None:
        return (app(c.cx, 'with_ext', ('str', atoms), ('str', ext)),)
    le = c.cx.lit_of(('str', ext))
    if le == '':
        return r[0]
    return r[0] + c.cx.lit('.')[1] + ext


@model('std::path::PathBuf::set_extension')
def m_setext(c):
    v = c.cx.load(c.args[0])
    c.cx.store(c.args[0], ('str', set_ext(c, c.cx.ratoms(v[1]), c.cx.str_atoms(c.args[1]))))
    return TRUE


@model('std::path::Path::with_extension')
def m_withext(c):
    return ('str', set_ext(c, c.cx.str_atoms(c.args[0]), c.cx.str_atoms(c.args[1])))


@model('std::path::Path::extension')
def m_ext(c):
    at = c.cx.str_atoms(c.args[0])
    r = split_ext(c.cx, at)
    if r is not None:
        return NONE if r[1] is None else some(('ref', c.cx.lit(r[1])))
    if c.cx.pred(('has_ext', ('str', at))):
        return some(('ref', appstr(c.cx, 'ext', ('str', at))))
    return NONE


@model('std::path::Path::file_stem', 'std::path::Path::file_name', 'std::path::Path::parent')
def m_pathpart(c):
    n = c.fn.mkey.split('::')[-1]
    at = c.cx.str_atoms(c.args[0])
    if c.cx.pred(('has_' + n, ('str', at))):
        return some(('ref', appstr(c.cx, n, ('str', at))))
    return NONE


@model('std::ffi::os_str::OsStr::to_str', 'std::path::Path::to_str')
def m_tostr(c):
    at = c.cx.str_atoms(c.args[0])
    if c.cx.lit_of(('str', at)) is not None or c.cx.pred(('is_utf8', ('str', at))):
        return some(('ref', ('str', at)))
    return NONE


@model('std::ffi::os_str::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy')
def m_lossy(c):
    raise Unsup('to_string_lossy')


@model('std::path::Path::is_file', 'std::path::Path::exists', 'std::path::Path::is_dir')
def m_isfile(c):
    n = c.fn.mkey.split('::')[-1]
    p = ('str', c.cx.str_atoms(c.args[0]))
    known = c.cx.known_pred
    # a file or directory exists, and is not both
    if n == 'exists' and (known(('is_file', p)) or known(('is_dir', p))):
        return TRUE
    if n != 'exists' and (known(('exists', p)) is False or
                          known(('is_dir' if n == 'is_file' else 'is_file', p))):
        return FALSE
    return ('b', c.cx.pred((n, p)))


@model('std::fs::canonicalize')
def m_canon(c):
    at = c.cx.str_atoms(c.args[0])
    if c.cx.pred(('canonicalize_ok', ('str', at))):
        return ok(appstr(c.cx, 'canonicalize', ('str', at)))
    return err(('opq', 'ioerr', ('canonicalize', ('str', at))))


@model('std::fs::File::open')
def m_open(c):
    at = c.cx.str_atoms(c.args[0])
    if c.cx.pred(('open_ok', ('str', at))):
        return ok(('opq', 'file', ('str', at)))
    return err(('opq', 'ioerr', ('open', ('str', at))))


@model('std::fs::read_to_string')
def m_readts(c):
    at = c.cx.str_atoms(c.args[0])
    if c.cx.pred(('read_ok', ('str', at))):
        return ok(appstr(c.cx, 'contents', ('str', at)))
    return err(('opq', 'ioerr', ('read', ('str', at))))


# ---- csv
CSV_DEFAULT = (('delimiter', 44), ('flexible', False), ('has_headers', True), ('trim', 'None'))


@model('csv::reader::ReaderBuilder::new', 'csv::writer::WriterBuilder::new')
def m_csvnew(c):
    return ('opq', 'csvb', CSV_DEFAULT)


def csv_opt(name):
    def f(c):
        p = c.args[0]
        b = c.cx.load(p)
        v = ldv(c, c.args[1])
        if v[0] == 'b':
            x = v[1]
        elif v[0] == 'i':
            x = c.cx.rl(v[1])[0]
        elif v[0] == 'adt':
            x = 'v%d' % v[1]
        else:
            raise Unsup('csv option')
        d = dict(b[2])
        d[name] = x
        c.cx.store(p, ('opq', 'csvb', tuple(sorted(d.items()))))
        return p
    return f


for _n in ('flexible', 'has_headers', 'delimiter', 'trim', 'quote', 'comment', 'double_quote', 'escape', 'quoting',
           'quote_style', 'terminator', 'buffer_capacity'):
    M['csv::reader::ReaderBuilder::' + _n] = csv_opt(_n)
    M['csv::writer::WriterBuilder::' + _n] = csv_opt(_n)


def csv_from_path(cx, conf, path):
    if cx.pred(('csv_open_ok', path)):
        return ok(('opq', 'csvr', tuple(x for x in conf if x[0] != 'buffer_capacity'), path))
    return err(('opq', 'csverr', ('open', path)))


@model('csv::reader::ReaderBuilder::from_path')
def m_csvpath(c):
    return csv_from_path(c.cx, ldv(c, c.args[0])[2], ('str', c.cx.str_atoms(c.args[1])))


@model('csv::reader::Reader::from_path')
def m_csvpath2(c):
    return csv_from_path(c.cx, CSV_DEFAULT, ('str', c.cx.str_atoms(c.args[0])))


@model('csv::reader::ReaderBuilder::from_reader')
def m_csvreader(c):
    r = c.args[1]
    if r[0] == 'opq' and r[1] == 'file':
        return ('opq', 'csvr', ldv(c, c.args[0])[2], r[2])
    raise Unsup('csv reader source')


@model('csv::reader::Reader::records', 'csv::reader::Reader::into_records')
def m_records(c):
    r = ldv(c, c.args[0])
    if r[0] != 'opq':
        raise Unsup('records of %s' % r[0])
    cx = c.cx
    ety = None
    for i, t in enumerate(cx.db.types):
        if t and t['s'].startswith('core::result::Result<csv::string_record::StringRecord, csv::error::Error>'):
            ety = i
    if ety is None:
        raise Unsup('no record type')
    return ('it', 'own', (app(cx, 'csv_records', r[2], r[3], ety=ety),))


@model('csv::writer::WriterBuilder::from_writer')
def m_csvw(c):
    return ('opq', 'csvw', ldv(c, c.args[0])[2], c.args[1], ('evs', ()))


@model('csv::writer::Writer::from_writer')
def m_csvw2(c):
    return ('opq', 'csvw', CSV_DEFAULT, c.args[0], ('evs', ()))


@model('csv::writer::Writer::write_record')
def m_write_record(c):
    p = c.args[0]
    w = c.cx.load(p)
    rec = ldv(c, c.args[1])
    if rec[0] == 'it':
        rec = ('seq', rec[2])
    if rec[0] != 'seq':
        raise Unsup('record of %s' % rec[0])
    rec = ('seq', tuple(('e', strip_all(c.cx, a[1])) if a[0] == 'e' else a for a in c.cx.ratoms(rec[1])))
    good = in_memory_write(w, rec)
    if good is None:
        good = c.cx.pred(('csv_write_ok',))
    if not good:
        return err(('opq', 'csverr', ('write',)))
    c.cx.store(p, ('opq', 'csvw', w[2], w[3], ('evs', w[4][1] + (('e', rec),))))
    return ok(UNIT)


def in_memory_write(w, rec):
    """does writing a record to a list of bytes succeed?  it does unless the number of fields has to stay the same"""
    if w[3] != ('seq', ()):
        return None
    if dict(w[2]).get('flexible') in (True, ('b', True)):
        return True
    sizes = {len(x[1][1]) for x in w[4][1] + (('e', rec),) if x[0] == 'e' and all(a[0] == 'e' for a in x[1][1])}
    if any(x[0] != 'e' or any(a[0] != 'e' for a in x[1][1]) for x in w[4][1] + (('e', rec),)):
        return None
    return len(sizes) == 1


def strip_all(cx, v):
    return cx.strip_ref(v)


@model('csv::writer::Writer::flush')
def m_flush(c):
    return ok(UNIT)


@model('csv::writer::Writer::into_inner')
def m_into_inner(c):
    return ok(('opq', 'csvout', c.args[0]))


# ---- yaml
@model('serde_yaml::de::from_reader', 'serde_yaml::de::from_str')
def m_yaml_from(c):
    a = c.args[0]
    src = a[2] if a[0] == 'opq' else ('str', c.cx.str_atoms(a))
    if c.cx.pred(('yaml_ok', src)):
        return ok(c.cx.mk_sym(('yaml', c.cx.rterm(src)), value_ty(c.cx)))
    return err(('opq', 'yamlerr', src))


def entry_of(cx, m, k, wrap):
    """look a key up in a symbolic mapping (a field of a symbolic value)"""
    m, k = cx.rterm(m[1]), cx.rterm(k)
    if cx.pred(('yaml_has', m, k)):
        return some(('ref', cx.mk_sym(('yaml_get', m, k), value_ty(cx)))) if wrap else ('b', True)
    return NONE if wrap else ('b', False)


def mapping_of(cx, v):
    """the mapping inside a symbolic value, or None when it is something else"""
    if not cx.is_variant(v, 'Mapping'):
        return None
    names = [x[0] for x in cx.ty(v[2])['variants']]
    return cx.open_sym(v, names.index('Mapping'))[2][0]


def yaml_key(cx, k):
    """a key given as a string or as a Value"""
    k = cx.strip_ref(k)
    if k[0] == 'adt' and k[2]:
        k = cx.strip_ref(k[2][0])
    if k[0] != 'str':
        raise Unsup('yaml index')
    return k


@model('serde_yaml::value::Value::get')
def m_yaml_get(c):
    v = ldv(c, c.args[0])
    k = yaml_key(c.cx, c.args[1])
    m = mapping_of(c.cx, v)
    return NONE if m is None else entry_of(c.cx, m, k, True)


@model('serde_yaml::mapping::Mapping::get', 'serde_yaml::mapping::Mapping::contains_key')
def m_mapping_get(c):
    m = ldv(c, c.args[0])
    if m[0] != 'sym':
        raise Unsup('mapping get on %s' % m[0])
    return entry_of(c.cx, m, yaml_key(c.cx, c.args[1]), c.fn.mkey.endswith('get'))


@model('Error|Error|custom', 'serde_yaml::error::Error|Error|custom')
def m_custom(c):
    return ('opq', 'yamlerr', 'custom')


@model('serde_yaml::mapping::Mapping::len')
def m_mapping_len(c):
    return ('i', c.cx.length(mapping_atoms(c, ldv(c, c.args[0]))))


@model('serde_yaml::ser::to_string')
def m_yaml_to_string(c):
    return ok(appstr(c.cx, 'to_yaml', ldv(c, c.args[0])))


# ---- formatting, logging, io
@model('core::fmt::Arguments::new', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::from_str',
       'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1')
def m_fmtargs(c):
    vs = []
    for a in c.args:
        v = a
        while v[0] in ('ref', 'ptr'):
            v = deref(c, v)
        vs.append(v)
    return ('opq', 'fmt', tuple(vs))


@model('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display')
def m_fmtarg(c):
    return ('opq', 'fmtarg', c.fn.mkey.split('_')[-1], c.cx.rterm(ldv(c, c.args[0])))


def fmt_atoms(cx, v):
    """render a format value when the template is a plain sequence of displayed strings"""
    vs = v[2]
    if len(vs) == 1 and vs[0][0] == 'str':
        return vs[0][1]
    if len(vs) == 2 and vs[0][0] == 'seq' and vs[1][0] == 'seq':
        args = []
        for a in cx.ratoms(vs[1][1]):
            if a[0] != 'e' or a[1][0] != 'opq' or a[1][1] != 'fmtarg' or a[1][2] != 'display':
                return None
            x = a[1][3]
            if x[0] == 'str':
                args.append(x[1])
            elif x[0] == 'c':
                args.append((('e', x),))
            else:
                return None
        bs = []
        for a in cx.ratoms(vs[0][1]):
            if a[0] != 'e' or a[1][0] != 'i':
                return None
            bs.append(a[1][1][0])
        # byte-coded template: 0 ends, 1..127 literal run of that length, 192 = next argument
        out = ()
        i = 0
        k = 0
        while i < len(bs):
            b = bs[i]
            i += 1
            if b == 0:
                return out
            if b < 0x80:
                try:
                    s = bytes(bs[i:i + b]).decode()
                except UnicodeDecodeError:
                    return None
                out += cx.lit(s)[1]
                i += b
            elif b == 0xC0:
                if k >= len(args):
                    return None
                out += args[k]
                k += 1
            else:
                return None
        return out
    return None


@model('alloc::fmt::format')
def m_format(c):
    v = c.args[0]
    if v[0] == 'opq' and v[1] == 'fmt':
        at = fmt_atoms(c.cx, v)
        if at is not None:
            return ('str', at)
        return appstr(c.cx, 'format', v[2])
    return appstr(c.cx, 'format', v)


@model('std::io::stdio::_print', 'std::io::stdio::_eprint')
def m_print(c):
    v = c.args[0]
    at = fmt_atoms(c.cx, v) if v[0] == 'opq' and v[1] == 'fmt' else None
    c.cx.event((c.fn.mkey.split('_')[-1], ('str', at) if at is not None else v))
    return UNIT


@model('log::max_level')
def m_maxlevel(c):
    return ('opq', 'maxlevel')


@model('Level|PartialOrd|partial_cmp')
def m_level_cmp(c):
    a, b = ldv(c, c.args[0]), ldv(c, c.args[1])
    if b[0] == 'opq':
        return some(('adt', 0, ())) if c.cx.pred(('max_level_at_least', a)) else some(('adt', 2, ()))
    if a[0] == 'adt' and b[0] == 'adt':
        x, y = a[1] + 1, b[1]
        return some(('adt', 0 if x < y else 1 if x == y else 2, ()))
    raise Unsup('level comparison')


@model('log::__private_api::enabled')
def m_log_enabled(c):
    return ('b', c.cx.pred(('log_enabled', c.args[1])))


@model('log::__private_api::log', 'log::__private_api::loc')
def m_log(c):
    return UNIT


@model('env_logger::init')
def m_envlogger(c):
    c.cx.event(('env_logger_init',))
    return UNIT


@model('Parser::parse')
def m_parse(c):
    return c.cx.mk_sym(('arg', 'opts'), c.ret_ty())


@model('std::io::stdio::stdin')
def m_stdin(c):
    return ('opq', 'stdin')


@model('std::io::stdio::Stdin::read_line')
def m_readline(c):
    if c.cx.pred(('read_line_ok',)):
        v = c.cx.load(c.args[1])
        # a line: text without a line feed, and its line feed unless the input ends there
        nl = c.cx.lit('\n')[1] if c.cx.pred(('the line ends with a line feed',)) else ()
        c.cx.store(c.args[1], ('str', v[1] + (app(c.cx, 'stdin_text'),) + nl))
        return ok(('i', latom(('t', ('nread',)))))
    return err(('opq', 'ioerr', ('read_line',)))


@model('usize|Step|forward_unchecked', '*|Step|forward_unchecked')
def m_fwd(c):
    return ('i', ladd(c.args[0][1], c.args[1][1]))


@model('usize|Step|backward_unchecked')
def m_bwd(c):
    return ('i', ladd(c.args[0][1], c.args[1][1], -1))


@model('core::num::<impl usize>::saturating_sub')
def m_satsub(c):
    a, b = c.cx.rl(c.args[0][1]), c.cx.rl(c.args[1][1])
    d = ladd(a, b, -1)
    return ('i', d) if c.cx.ge0(d) else I(0)


@model('core::num::<impl usize>::checked_sub')
def m_checkedsub(c):
    d = ladd(c.cx.rl(c.args[0][1]), c.cx.rl(c.args[1][1]), -1)
    return some(('i', d)) if c.cx.ge0(d) else NONE


@model('core::num::<impl usize>::saturating_add', 'core::num::<impl usize>::wrapping_add')
def m_satadd(c):
    return ('i', ladd(c.args[0][1], c.args[1][1]))


@model('core::num::<impl usize>::checked_add')
def m_checkedadd(c):
    return some(('i', ladd(c.args[0][1], c.args[1][1])))


@model('core::cmp::min', 'core::cmp::max', 'Ord::min', 'Ord::max', '*|Ord|min', '*|Ord|max')
def m_minmax(c):
    a, b = ldv(c, c.args[0]), ldv(c, c.args[1])
    if a[0] != 'i' or b[0] != 'i':
        return NI
    le = c.cx.icmp('Le', c.cx.rl(a[1]), c.cx.rl(b[1]))
    mn = 'min' in c.fn.mkey.split('::')[-1].split('|')[-1]
    return (a if le else b) if mn else (b if le else a)


@model('*|Into|into')
def m_into(c):
    if c.fn.has_body:
        return NI
    raise Unsup('into')


@model('core::ops::control_flow::ControlFlow::Break', 'core::ops::control_flow::ControlFlow::Continue')
def m_cf(c):
    # variant constructors used as functions: Continue = 0, Break = 1
    return ('adt', 1 if c.fn.mkey.endswith('Break') else 0, (c.args[0],))


@model('core::hint::black_box', 'core::hint::must_use', 'core::intrinsics::cold_path', 'core::hint::cold_path')
def m_bb(c):
    return c.args[0] if c.args else UNIT
