"""Effects of normalising, of building tables and of loading, over the call graph."""
import json
import os
from sa import build
from sa.graph import Reach, consts
from .common import ASSUME, db, hfn                                       # noqa: F401

RULE = ('effect analysis over the call graph of the compiled program: every function reachable from the entry points, '
        'closures and functions passed as values included, is classified by the effects of the library functions it '
        'calls and of the statics it mentions; an effect outside the allowed set is a violation, with the path to it')

# effects of library functions by path prefix, longest prefix first
EFFECTS = {
    'log::': 'log',
    'std::fs::': 'writes files', 'std::fs::read': 'reads files', 'std::fs::File::open': 'reads files',
    'std::fs::metadata': 'reads files', 'std::fs::canonicalize': 'reads files', 'std::fs::exists': 'reads files',
    'std::fs::symlink_metadata': 'reads files', 'std::fs::Metadata': 'reads files', 'std::fs::FileType': 'reads files',
    'std::fs::DirEntry': 'reads files', 'std::fs::try_exists': 'reads files',
    'std::fs::File': None,          # what a handle may do is decided where it is opened
    'std::fs::File::create': 'writes files', 'std::fs::File::set_len': 'writes files',
    'std::path::Path::exists': 'reads files', 'std::path::Path::try_exists': 'reads files',
    'std::path::Path::is_file': 'reads files', 'std::path::Path::is_dir': 'reads files',
    'std::path::Path::is_symlink': 'reads files', 'std::path::Path::canonicalize': 'reads files',
    'std::path::Path::metadata': 'reads files', 'std::path::Path::symlink_metadata': 'reads files',
    'std::path::Path::read': 'reads files',
    'std::env::': 'reads the environment', 'std::env::set_var': 'writes the environment',
    'std::env::remove_var': 'writes the environment', 'std::env::set_current_dir': 'writes the environment',
    'dirs::': 'reads the environment', 'dirs_sys::': 'reads the environment',
    'std::time::': 'reads the clock', 'std::thread::': 'threads', 'std::process::': 'processes', 'std::net::': 'network',
    'std::os::': 'system', 'std::io::stdio::': 'standard streams', 'std::io::': 'input and output',
    'core::io::': 'input and output',
    'std::io::error': None, 'std::io::Error': None, 'core::io::error': None, 'std::io::impls': None,
    'std::io::buffered': None, 'std::io::cursor': None, 'std::io::Write': None,
    'std::sync::mpsc': 'threads', 'std::sync::': 'shared state', 'core::sync::atomic': 'shared state',
    'std::sync::poison': 'shared state',
    'std::sync::OnceLock': None, 'std::sync::LazyLock': None, 'std::sync::Once': None, 'std::sync::once': None,
    'std::sync::lazy': None, 'alloc::sync::': None,
    'std::alloc::': None, 'std::collections::': None, 'std::hash::': None, 'std::path::': None, 'std::ffi::': None,
    'std::error::': None, 'std::panic': None, 'std::ascii': None, 'std::char': None, 'std::f64': None, 'std::f32': None,
    'std::hash::random::RandomState::new': None, 'std::rt::': None,
    'std::backtrace': None, 'std::keyword': None, 'std::num': None,
    'core::': None, 'alloc::': None,
    'csv::': None, 'csv_core::': None, 'serde_yaml::': None, 'serde::': None, 'serde_core::': None, 'anyhow::': None,
    'csv::ReaderBuilder::from_path': 'reads files', 'csv::Reader::from_path': 'reads files',
    'csv::reader::ReaderBuilder::from_path': 'reads files', 'csv::reader::Reader::from_path': 'reads files',
    'csv::writer::WriterBuilder::from_path': 'writes files', 'csv::writer::Writer::from_path': 'writes files',
    'libc::': 'system',
}
INTERIOR = ('core::cell::Cell', 'core::cell::RefCell', 'core::cell::UnsafeCell', 'core::sync::atomic::',
            'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock', 'std::sync::nonpoison')
LAZY = ('OnceLock', 'LazyLock', 'OnceCell', 'LazyCell', 'lazy_static', 'Once')


def effect(fn):
    """(known, effect or None) of a library function"""
    names = [fn.path]
    if fn.implfor:
        names.insert(0, fn.implfor)
    if fn.trait:
        names.append(fn.trait)
    names.append(fn.krate + '::')
    hits = [p for n in names for p in EFFECTS if n.lstrip('<&').startswith(p)]
    if hits:
        return True, EFFECTS[max(hits, key=len)]
    return (True, None) if fn.has_body and fn.krate in ('core', 'alloc', 'harness', 'chanoma') else (False, None)


def holds(d, t, pred, seen=None):
    """a type inside t (its parameters and, for the crate's own types, its fields) for which pred holds"""
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    ty = d.ty(t)
    if pred(ty['s'], ty):
        return ty['s']
    sub = [x for x in ty.get('args', ()) if isinstance(x, int)] + [ty[k] for k in ('to', 'of') if k in ty]
    sub += list(ty.get('elems', ())) + list(ty.get('upvars', ()))
    if ty.get('name', '').startswith(('chanoma::', 'harness::')) or not ty.get('name', '').startswith(
            ('std::', 'core::', 'alloc::')):
        sub += [f[1] for v in ty.get('variants', ()) for f in v[2]]
    for x in sub:
        r = holds(d, x, pred, seen)
        if r:
            return r
    return None


def interior(s, ty):
    return ty.get('name', s).startswith(INTERIOR)


def statics(fn):
    """[(name, type index, line)] of the statics a function mentions"""
    out = []

    def scan(x, line):
        if isinstance(x, (list, tuple)):
            if len(x) == 3 and x[0] == 'k' and isinstance(x[2], (list, tuple)) and x[2] and x[2][0] == 'static':
                out.append((x[2][1], x[1], line))
            elif len(x) >= 2 and x[0] == 'tls':
                out.append((str(x[1]), None, line))
            for y in x:
                scan(y, line)
    for st, t in fn.blocks:
        for s in st:
            scan(s, s[3] if len(s) > 3 else fn.line)
        scan(t, fn.line)
    return out


def interior_static(d, f):
    return any(t is not None and any(x in d.ty(t)['s'] for x in LAZY) for _, t, _ in statics(f))


ONCE = ('get_or_init', 'get_or_try_init', 'set', 'try_insert', 'get_mut_or_init')


def places(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], (list, tuple)):
            out.append(x[0])
        for y in x:
            places(y, out)
    return out


def empty(d, t):
    ty = d.ty(t)
    if ty['k'] == 'ref':
        return empty(d, ty['to'])
    return ty['k'] == 'adt' and len(ty['variants']) == 1 and not ty['variants'][0][2] and \
        ty['name'].startswith(('chanoma::', 'harness::'))


def first_call(d, f):
    """a value that is computed once and depends on the arguments of the call that came first"""
    calls = []
    for st, t in f.blocks:
        if t[0] == 'call' and t[1][0] == 'k' and t[1][2][0] == 'fn':
            fd = d.fndefs[t[1][2][1]]
            g = d.fns.get(fd.get('inst'))
            name = g.path if g is not None else str(fd.get('def'))
            if ('OnceLock' in name or 'OnceCell' in name) and name.split('::')[-1] in ONCE:
                calls.append(t)
    if not calls:
        return False
    tainted = {i for i in range(1, f.nargs + 1) if not empty(d, f.locals[i])}
    for _ in range(len(f.locals)):
        n = len(tainted)
        for st, t in f.blocks:
            for s in st:
                if s[0] == '=' and any(p in tainted for p in places(s[2], [])):
                    tainted.add(s[1][0])
            if t[0] == 'call' and any(p in tainted for p in places(t[2], [])):
                tainted.add(t[3][0])
        if len(tainted) == n:
            break
    return any(p in tainted for t in calls for p in places(t[2][1:], []))


def effects(rep, key, roots, allowed, what):
    d = db()
    r = Reach(d, [hfn(n) for n in roots])
    bad, unknown, seen = [], [], {}
    for f in r.fns():
        own = f.krate in ('chanoma', 'harness')
        if not own:
            known, e = effect(f)
            if not known:
                unknown.append('%s (%s)' % (f.path, f.krate))
            elif e and e not in allowed:
                bad.append((f, e, r.path(f.key)))
            if e:
                seen[e] = seen.get(e, 0) + 1
        if own and f.has_body:
            if first_call(d, f) and any(interior_static(d, g) for g in r.fns() if g.has_body
                                        and g.krate in ('chanoma', 'harness')):
                bad.append((f, 'a value kept from the first call', r.path(f.key)))
                continue
            for name, t, line in statics(f):
                if t is None:
                    bad.append((f, 'thread-local state %s' % name, r.path(f.key)))
                    continue
                ty = d.ty(t)
                if ty['k'] == 'ptr' and ty.get('mut'):
                    bad.append((f, 'mutable global %s' % name, r.path(f.key)))
                    continue
                hit = holds(d, t, interior)
                lazy = any(x in ty['s'] for x in LAZY)
                if hit and not lazy:
                    bad.append((f, 'global state %s: %s' % (name, hit), r.path(f.key)))
    rep.functions |= {f.path for f in r.fns() if f.has_body}
    rep.leaves |= {f.mkey for f in r.fns() if not f.has_body}
    calls = [(f, w) for f, _, w in r.open if not w.startswith('drop:')]
    drops = {w[5:] for _, _, w in r.open if w.startswith('drop:')}
    data = {'functions': len(r.parent), 'effects': seen}
    for f, e, path in bad[:5]:
        rep.violated('%s/%s' % (key, e), '%s: %s (%s)' % (what, e, f.path), where=path[-2] if len(path) > 1 else f.path,
                     path=path, rule=RULE)
    own_drop = [f.path for f in d.fns.values() if f.krate == 'chanoma' and f.mkey.endswith('|Drop|drop')
                and any(head in x for x in drops for head in [f.implfor or '?'])]
    unknown += ['%s in %s' % (w, f.path) for f, w in calls] + ['drop code ' + x for x in own_drop]
    if bad:
        return
    if unknown:
        rep.undecided(key, '%s: effects of %s are not known' % (what, ', '.join(sorted(set(unknown))[:4])), rule=RULE)
    else:
        rep.ok(key, '%s (%d functions)' % (what, len(r.parent)), rule=RULE, **data)


def run(rep):
    effects(rep, 'normalize', ['normalize__impl', 'normalize__records'], {'log'},
            'normalising has no effect but log records')
    effects(rep, 'build', ['preset_new', 'preset_use', 'neologdn_new', 'neologdn_use', 'grow_preset', 'grow_neologdn', 'grow_table', 'empty_new',
                           'empty_default', 'table_new', 'table_kind', 'neologdn_kind', 'new_table__impl',
                           'default_table__impl', 'rebuild__impl', 'linear__impl', 'unify__impl', 'lists__impl',
                           'item_new__impl', 'same__impl', 'preset_table', 'sum__impl', 'sum_assign__impl', 'diff__impl', 'diff_assign__impl',
                           'table_add__impl', 'table_remove__impl', 'preset__impl', 'add_corr__impl', 'remove_corr__impl',
                           'converter__impl'], set(), 'building pipelines and tables has no effect')
    effects(rep, 'load', ['load_rc__impl', 'config_file__impl'], {'log', 'reads files', 'reads the environment'},
            'loading reads files and the environment, and changes nothing')
    d = db()
    ts = [t for t in range(len(d.types)) if d.ty(t).get('name') == 'chanoma::chanoma::Chanoma']
    if not ts:
        rep.undecided('state', 'the type of a pipeline was not found', rule=RULE)
    for t in ts:
        hit = holds(d, t, interior)
        if hit:
            rep.violated('state', 'a pipeline holds state that normalising can change: %s' % hit, where='chanoma::Chanoma',
                         rule=RULE)
        else:
            rep.ok('state', 'a pipeline holds no interior mutability', rule=RULE)
    dr = json.load(open(os.path.join(build.dump('lib'), 'dropped.json')))
    why = [m for c, m in dr.get('shared', []) if c == 'E0277']
    if why:
        rep.violated('shared', 'a pipeline or table can no longer be shared between threads: %s' % why[0],
                     where='harness/src/shared.rs', rule='type-level witness: a function bounded by Send + Sync is '
                     'instantiated with the public types')
    elif 'shared' in dr:
        rep.undecided('shared', 'the witness does not compile: %s' % dr['shared'])
    else:
        hfn('shareable')
        rep.ok('shared', 'Chanoma, Table and TableBuilder are Send + Sync', rule='type-level witness')
