"""The Python binding: what its classes hand to the library."""
from .common import ASSUME, Missing, db                                             # noqa: F401
from sa.engine import Unsup
from sa.models import UNIT, app, appstr, err, ldv, ok        # noqa: F401
from sa.product import explore, judge_strict

RULE = ('relational abstract interpretation of the binding and reference functions over the same symbolic arguments: '
        'fixpoint over paired program points, results compared on every path; the library is a set of free operations')
DUMP = 'chanoma_py-lib.json'


def fn(tail):
    fs = [f for f in db('py', DUMP).fns.values() if f.krate == 'chanoma_py' and f.mkey == tail and f.has_body]
    if len(fs) != 1:
        raise Missing('%s: %d found' % (tail, len(fs)))
    return fs[0]


def term(c, i=0):
    return c.cx.rterm(c.cx.load(c.args[i]) if c.args[i][0] == 'ptr' else ldv(c, c.args[i]))


def library(d):
    """pipelines and table builders as free terms"""
    ety = d.tyidx['u8']

    def mk(c, name, *args):
        return ('adt', 0, (('seq', (app(c.cx, name, *args, ety=ety),)),))

    def add(name, arg=False):
        def f(c):
            a = (term(c, 1),) if arg else ()
            c.cx.store(c.args[0], mk(c, name, term(c), *a))
            return c.args[0] if not arg else UNIT
        return f

    def fail(name, *pre):
        def f(c):
            p = ('str', c.cx.str_atoms(c.args[-1])) if c.args else ()
            if c.cx.pred((name + ' succeeds', p)):
                if len(c.args) == 2:
                    c.cx.store(c.args[0], mk(c, name, term(c), p))
                    return ok(c.args[0])
                return ok(mk(c, name, p))
            return err(('opq', name + ' error'))
        return f
    P, B = 'chanoma::chanoma::Chanoma::', 'chanoma::table::TableBuilder::'
    cuts = {P + 'new': lambda c: mk(c, 'new'),
            'Chanoma|Default|default': lambda c: mk(c, 'new'),
            P + 'preset': lambda c: mk(c, 'preset', mk(c, 'new')),
            P + 'neologdn': lambda c: mk(c, 'neologdn', mk(c, 'new')),
            P + 'use_preset': add('preset'), P + 'use_neologdn': add('neologdn'), P + 'add_table': add('table', True),
            P + 'load_rc': fail('load_rc'), P + 'from_config_file': fail('config file'),
            P + 'normalize': lambda c: appstr(c.cx, 'normalize', term(c), ('str', c.cx.str_atoms(c.args[1]))),
            B + 'new': lambda c: mk(c, 'builder'), B + 'preset': add('preset'),
            B + 'add_from_csv': fail('csv'), B + 'add_from_yaml': fail('yaml'),
            B + 'build': lambda c: mk(c, 'built', term(c)),
            'chanoma::table::Table::new': lambda c: mk(c, 'table new'),
            'Table|Default|default': lambda c: mk(c, 'table new'),
            'Table|Clone|clone': lambda c: ldv(c, c.args[0]),
            'PyErr|From|from': lambda c: ('opq', 'PyErr')}
    for f in d.fns.values():
        if f.krate == 'pyo3' and f.mkey.endswith('::new_err'):
            cuts[f.mkey] = lambda c: ('opq', 'PyErr')
        if f.mkey.endswith('|ToString|to_string') and f.mkey.split('|')[0] in ('Error', 'T'):
            cuts[f.mkey] = lambda c: appstr(c.cx, 'message')
    return cuts


def named(f, ref):
    """arguments for f in f's own order, by the names of ref's parameters"""
    names = {v[1]: v[0] for v in f.vars}
    refs = {v[0]: v[1] for v in ref.vars}
    out = []
    for i in range(1, f.nargs + 1):
        n = names.get(i)
        if n not in refs or refs[n] > ref.nargs:
            raise Missing('parameter %s of %s' % (n, f.path))
        out.append(lambda cx, n=n, i=i: cx.mk_sym(('arg', n), f.locals[i]))
    return out


def outcome(cx, s):
    """Ok(wrapper) against Some(value): both fail, or both succeed with the same value"""
    a, b = (t.result for t in s.th[:2])
    if a[0] != 'ret' or b[0] != 'ret':
        return None if a[0] == b[0] else 'panic: %s' % ((a if a[0] != 'ret' else b)[1],)
    a, b = a[1], b[1]
    while a[0] == 'adt' and len(a[2]) == 1 and a[1] == 1 and a[2][0][0] == 'opq':
        return None if b[1] == 0 else 'fails where it has to succeed'
    if a[0] != 'adt' or a[1] not in (0, 1):
        raise Unsup('the outcome is not known')
    if a[1] == 1:
        return None if b[1] == 0 else 'fails where it has to succeed'
    if b[1] == 0:
        return 'succeeds where it has to fail'
    v = a[2][0]
    if v[0] == 'adt' and len(v[2]) == 1:        # the Python object around the value
        v = v[2][0]
    v, w = cx.rterm(v), cx.rterm(b[2][0])
    return None if v == w else '%s instead of %s' % (v, w)


def items(cx, s):
    """the one field of the class against the list"""
    a = s.th[0].result
    if a[0] == 'ret' and a[1][0] == 'adt' and len(a[1][2]) == 1:
        s.th[0].result = ('ret', a[1][2][0]) + tuple(a[2:])
    return judge_strict(cx, s)


def adding(d):
    cuts = library(d)
    P = 'chanoma::table::Table::'

    def extract(c):
        if c.cx.pred(('the object has items',)):
            t = c.cx.ty(c.ret_ty())
            return ok(c.cx.mk_sym(('given',), [a for a in t['args'] if isinstance(a, int)][0]))
        return err(('opq', 'PyErr'))

    def add(c):
        v = ldv(c, c.args[1])
        c.cx.store(c.args[0], ('adt', 0, (('seq', (app(c.cx, 'added', term(c), c.cx.rterm(v), ety=d.tyidx['u8']),)),)))
        return UNIT
    cuts['pyo3::types::any::PyAny::extract'] = extract
    cuts[P + 'add'] = add
    for n in ('Correspondence', 'CorrespondenceExtraction'):
        cuts['%s|From|from' % n] = lambda c: ('opq', 'corr of', term(c))
    return cuts


def added(cx, s):
    """the table afterwards, whether or not the call succeeds"""
    a, b = (t.result for t in s.th[:2])
    if a[0] != 'ret' or b[0] != 'ret':
        return 'panic: %s' % ((a if a[0] != 'ret' else b)[1],)
    a, b = cx.rterm(a[1]), cx.rterm(b[1])
    return None if a == b else '%s instead of %s' % (a, b)


def go(rep, key, a, b, what, judge=judge_strict, by_name=False, cuts=None):
    d = db('py', DUMP)
    try:
        fa, fb = fn(a), fn(b)
        args = [named(fa, fb), named(fb, fb)] if by_name else [
            lambda cx, i=i: cx.mk_sym(('arg', i), fb.locals[1 + i]) for i in range(fb.nargs)]
        o = explore(d, [fa, fb], args, judge, cuts=library(d) if cuts is None else cuts)
    except (Unsup, Missing) as e:
        return rep.undecided(key, str(e), rule=RULE)
    return rep.outcome(key, o, what, RULE)


def defaults(d, cls):
    """{parameter: its default} of a class's constructor, from the generated argument parser"""
    fs = [f for f in d.fns.values() if f.krate == 'chanoma_py' and f.path.endswith(
        '<impl %s>::__pymethod__new__::{closure#0}' % cls)]
    if len(fs) != 1:
        raise Unsup('argument parser of %s' % cls)
    out = {}
    for st, t in fs[0].blocks:
        if t[0] != 'call' or t[1][0] != 'k':
            continue
        i = t[1][2][1] if t[1][2][0] == 'fn' else None
        if i is None or not (d.fndefs[i].get('def') or '').endswith('extract_argument_with_default'):
            continue
        val = {s[1][0]: s[2] for s in st if s[0] == '=' and not s[1][1]}

        def source(op):
            while True:
                if op[0] in ('mv', 'cp') and not [x for x in op[1][1] if x != '*']:
                    op = val.get(op[1][0], ('?',))
                elif op[0] == 'use':
                    op = op[1]
                elif op[0] == 'ref' and not [x for x in op[1][1] if x != '*']:
                    op = val.get(op[1][0], ('?',))
                else:
                    return op
        name, clo = source(t[2][1]), source(t[2][2])
        if name[0] != 'k' or name[2][0] != 'str' or clo[0] != 'agg' or clo[1][0] != 'closure':
            raise Unsup('argument parser of %s' % cls)
        ty = d.ty(clo[1][1])
        c = d.callables.get(clo[1][1]) or {}
        f = next((d.fns[c[m]] for m in ('fn', 'mut', 'once') if c.get(m) in d.fns), None)
        if f is None:
            raise Unsup('default of %s: %s' % (name[2][1], ty['s']))
        got = []
        explore(d, [f], [lambda cx: ('tup', ())] * f.nargs, lambda cx, s: got.append(s.th[0].result))
        out[name[2][1]] = got[0][1] if len(got) == 1 and got[0][0] == 'ret' else None
    return out


def constructor(rep, cls, want):
    d = db('py', DUMP)
    key = cls + '/defaults'
    try:
        got = defaults(d, cls)
    except Unsup as e:
        return rep.undecided(key, str(e), rule=RULE)
    bad, unknown = [], []
    for n, w in want.items():
        if got.get(n) is None:
            unknown.append(n)
        elif got[n] != w:
            bad.append('%s defaults to %s' % (n, got[n]))
    if bad:
        rep.violated(key, '; '.join(bad), rule=RULE, where='%s.__new__ (bindings/python3/src/lib.rs)' % cls)
    elif unknown:
        rep.undecided(key, 'default of %s' % ', '.join(unknown), rule=RULE)
    else:
        rep.ok(key, 'arguments left out are None or False', rule=RULE)


NO, NONE = ('b', False), ('adt', 0, ())


def run(rep):
    constructor(rep, 'Chanoma', {'table': NONE, 'neologdn': NO, 'preset': NO, 'rc': NO, 'configfile': NONE})
    constructor(rep, 'Table', {'preset': NO, 'csv': NONE, 'yaml': NONE})
    go(rep, 'Chanoma', 'Chanoma::new', 'spec::pipeline__spec',
       'Chanoma(...): the configuration, then the table, the preset and neologdn', outcome, True)
    go(rep, 'Chanoma/normalize', 'spec::normalize__impl', 'spec::normalize__spec', 'normalize hands the text through')
    go(rep, 'Table', 'Table::new', 'spec::table__spec', 'Table(...): the preset, then the csv file, then the YAML file',
       outcome, True)
    go(rep, 'Item', 'spec::item__impl', 'spec::item__spec', 'an item keeps its two texts', cuts={})
    go(rep, 'Item/back', 'spec::back__impl', 'spec::back__spec', 'an item of the library keeps its two texts', cuts={})
    go(rep, 'Correspondence', 'spec::given__impl', 'spec::given__spec', 'a correspondence keeps its items', cuts={})
    go(rep, 'Table/add', 'spec::add__impl', 'spec::add__spec',
       'Table.add adds the items of what it is given, or fails and adds nothing', added, cuts=adding(db('py', DUMP)))
    go(rep, 'Correspondence/items', 'spec::corr__impl', 'spec::corr__spec',
       'a correspondence given to Table.add keeps its items in order', cuts={})
    for n, t in (('alphabets', 'Alphabets'), ('digits', 'Digits'), ('punctuations', 'Punctuations'), ('kanas', 'Kanas'),
                 ('cjk', 'CjkCompatibilities')):
        go(rep, 'characters_set/' + t, 'characters_set::%s::new' % t, 'spec::%s__spec' % n,
           'the items of characters_set.%s are those of the library' % t, items, cuts={})
