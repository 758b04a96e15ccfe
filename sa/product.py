"""Running the engine on single functions and on pairs of functions (product programs)."""
import signal
import time
from . import models
from .db import DB
from .witness import confirms
from .engine import Ctx, history, show_val, Unsup


def ret_text(v):
    return v


# wall-clock budgets (seconds): what does not finish is reported as undecided, never guessed
BUDGET = {'one': 200.0, 'all': 600.0}
START = time.time()


def tier(name):
    if name == 'thorough':
        BUDGET.update(one=240.0, all=700.0)


class Timeout(Exception):
    pass


class Found(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class Outcome:
    def __init__(self):
        self.finals = 0
        self.bad = []          # (description, exact, history)
        self.undecided = {}
        self.why = {}          # reasons for which refuting states are not exact
        self.states = 0
        self.steps = 0
        self.fns = set()
        self.leaves = set()
        self.wall = 0.0
        self.inexact = 0
        self.hashed = False

    def merge(self, other):
        self.bad += other.bad
        self.states += other.states
        self.steps += other.steps
        self.finals += other.finals
        self.wall += other.wall
        for k, v in other.undecided.items():
            self.undecided[k] = max(v, self.undecided.get(k, 0))
        for k, v in other.why.items():
            self.why[k] = self.why.get(k, 0) + v

    @property
    def decided(self):
        return not self.undecided and not self.inexact and self.finals > 0

    @property
    def violated(self):
        return any(b[1] for b in self.bad)


HASH = 'hash iteration order'
FACTS = {'pred seqeq', 'pred streq', 'pred strlt', 'length of an application'}     # notes on facts that an interpretation can check
LIMITS = (1, 2, 3)          # input lengths of the refutation passes


def explore(db, fns, args, judge, cuts=None, max_states=20000, max_steps=4000000, collapse=(), setup=None,
            refute=16, split=False):
    """The fixpoint analysis; where an order of hash iteration was assumed, the opposite order as well; and where
    it ends with differences on merged states only, a second pass that keeps the first visits of every loop header
    apart (delayed widening) to see whether a difference remains without any merging.
    split: the first function iterates hash tables in one order and the second in the opposite one."""
    kw = dict(cuts=cuts, max_steps=max_steps, collapse=collapse, setup=setup)
    if split:
        kw['hash_rev'] = 'split'
    o = explore1(db, fns, args, judge, max_states=max_states, stop=bool(refute), **kw)
    if o.hashed and not o.bad and not split:
        o2 = explore1(db, fns, args, judge, max_states=max_states, hash_rev=True, stop=bool(refute), **kw)
        o.merge(o2)
    if (o.bad or o.undecided) and refute:
        # the obligation cannot be discharged any more; is there a real difference?
        o.bad = [(w, False, h) for w, e, h in o.bad]

        def confirm(**k):
            o3 = explore1(db, fns, args, judge, stop=True, exact=True, **kw, **k)
            o.bad += [b for b in o3.bad if b[1]]
            return o3
        for n in LIMITS:
            o3 = confirm(max_states=max_states // 4, delay=60, limit=n)
            if not o.violated and o3.hashed and not split:
                confirm(max_states=max_states // 4, delay=60, limit=n, hash_rev=True)
            if o.violated:
                return o
            if not o3.cx.stats.get('limited') and not o3.undecided:
                break
        if o.bad:
            confirm(max_states=max_states // 2, delay=refute)
        if not o.violated:
            o.inexact = len(o.bad)
    return o


def explore1(db, fns, args, judge, cuts=None, max_states=20000, max_steps=4000000, collapse=(), setup=None,
             delay=0, hash_rev=False, limit=None, stop=False, exact=False):
    """fns: functions run in lockstep on args (values or callables cx -> value; one list per function or
    one shared list).  judge(cx, state) -> None when fine, else a string."""
    cx = Ctx(db, models.M, cuts, max_states=max_states, max_steps=max_steps)
    cx.collapse = collapse
    cx.delay = delay
    cx.limit = limit
    cx.hash_rev = hash_rev
    s = cx.new_state()
    cx.S = s
    if setup:
        setup(cx, s)
    cx.argty = {i: t for i, t in enumerate(fns[0].locals[1:1 + fns[0].nargs])}
    shared = None
    for i, f in enumerate(fns):
        if args and isinstance(args[0], list):
            a = [x(cx) if callable(x) else x for x in args[i]]
        else:
            if shared is None:
                shared = [x(cx) if callable(x) else x for x in args]
            a = shared
        cx.add_thread(s, 'ab'[i] if i < 2 else str(i), f, list(a))
    o = Outcome()
    t = time.time()

    def fin(cx, s):
        r = judge(cx, s)
        o.finals += 1
        o.hashed = o.hashed or HASH in s.inexact
        if r is not None:
            # any order of a hash table is a possible order: assuming one does not weaken a refutation
            loose = s.inexact - {HASH}
            sure = not loose or limit is not None and loose <= FACTS and len(s.th) == 2 and confirms(cx, s)
            o.bad.append((r, sure, history(s, 14)))
            for w in s.inexact:
                o.why[w] = o.why.get(w, 0) + 1
            if stop and (sure or not exact):
                raise Found()
            if loose:
                o.inexact += 1
    left = min(BUDGET['one'], BUDGET['all'] - (time.time() - START))
    late = False
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(left, 0.5))
    try:
        cx.run(s, fin)
    except Timeout:
        late = True
    except Found:
        pass
    except (AttributeError, IndexError, KeyError, TypeError, ValueError, RecursionError) as e:
        cx.stats['undecided']['analysis failed: %r' % e] = 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    o.undecided = dict(cx.stats['undecided'])
    if late:
        o.undecided['time limit'] = 1
    o.states = cx.stats['states']
    o.steps = cx.stats['steps']
    o.fns = {db.fns[k].path for k in cx.stats['fns']}
    o.leaves = set(cx.stats['leaves'])
    o.wall = time.time() - t
    o.cx = cx
    return o


def sym_args(fn, names=None):
    def mk(i, ty):
        return lambda cx: cx.mk_sym(('arg', i), ty)
    return [mk(i, fn.locals[1 + i]) for i in range(fn.nargs)]


def judge_equal(cx, s):
    ra, rb = s.th[0].result, s.th[1].result
    if ra[0] != 'ret' or rb[0] != 'ret':
        if ra[0] == rb[0]:
            return None
        p = ra if ra[0] != 'ret' else rb
        return '%s side: %s' % ('first' if ra[0] != 'ret' else 'second', p)
    if cx.eq(ra[1], rb[1]):
        return None
    return '%s  differs from  %s' % (show_val(ra[1]), show_val(rb[1]))


def judge_returned(cx, s):
    """equality of what is returned; panics are another property's business"""
    ra, rb = s.th[0].result, s.th[1].result
    if ra[0] != 'ret' or rb[0] != 'ret':
        return None
    return judge_equal(cx, s)


NUMERIC = ('overflow', 'index', 'slice', 'insert', 'remove', 'divi', 'panic_bounds')


def judge_strict(cx, s):
    """equality of what is returned, and a panic of either side is a difference; panics that hang on exact
    integer arithmetic (overflow, bounds) are left to the panic census"""
    for t in s.th[:2]:
        if t.result[0] == 'panic' and str(t.result[1]).lower().startswith(NUMERIC):
            return None
    return judge_equal(cx, s)
