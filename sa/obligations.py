"""Obligations: what a check has to discharge, and the evidence made from them."""


class Obligation:
    def __init__(self, key, status, detail='', where='', path=(), rule='', data=None):
        self.key = key
        self.status = status          # ok | violated | undecided
        self.detail = detail
        self.where = where
        self.path = list(path)
        self.rule = rule
        self.data = data or {}
        self.known = False

    def to_json(self):
        d = {'obligation': self.key, 'status': self.status}
        if self.detail:
            d['detail'] = self.detail
        if self.where:
            d['where'] = self.where
        if self.path:
            d['path'] = [list(map(str, h)) if isinstance(h, (tuple, list)) else str(h) for h in self.path]
        if self.rule:
            d['rule'] = self.rule
        if self.data:
            d.update(self.data)
        if self.known:
            d['known'] = True
        return d


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obligations = []
        self.functions = set()
        self.leaves = set()
        self.states = 0
        self.transitions = 0
        self.paths = 0

    def add(self, key, status, detail='', where='', path=(), rule='', **data):
        self.obligations.append(Obligation(key, status, detail, where, path, rule, data))
        return status

    def ok(self, key, detail='', **k):
        return self.add(key, 'ok', detail, **k)

    def violated(self, key, detail, **k):
        return self.add(key, 'violated', detail, **k)

    def undecided(self, key, detail, **k):
        return self.add(key, 'undecided', detail, **k)

    def count(self, st):
        return sum(o.status == st for o in self.obligations)

    def absorb(self, o):
        """statistics of an engine run"""
        self.functions |= o.fns
        self.leaves |= o.leaves
        self.states += o.states
        self.transitions += o.steps
        self.paths += o.finals

    @staticmethod
    def weigh(o):
        if any(b[1] for b in o.bad):
            return 'violated'
        return 'undecided' if o.undecided or o.bad or not o.finals else 'ok'

    def outcome(self, key, o, what='', rule=''):
        """turn an engine outcome into an obligation"""
        self.absorb(o)
        exact = [b for b in o.bad if b[1]]
        data = {'abstract_states': o.states, 'final_states': o.finals, 'seconds': round(o.wall, 2)}
        if exact:
            d, _, h = min(exact, key=lambda b: len(b[2]))
            where = h[-1][0] if h else ''
            for w, _ in reversed(h):
                if 'final comparison' not in w:
                    where = w
                    break
            return self.add(key, 'violated', '%s: %s' % (what, d) if what else d, where, h, rule, **data)
        if o.undecided or o.bad or not o.finals:
            why = '; '.join('%s (%d)' % kv for kv in list(o.undecided.items())[:3])
            if o.bad:
                why = ('differences only on widened states (%d: %s)' % (len(o.bad), ', '.join(sorted(o.why)))) + ('; ' + why if why else '')
            if not o.finals:
                why = 'no final state; ' + why
            return self.add(key, 'undecided', why, '', (), rule, **data)
        return self.add(key, 'ok', what, '', (), rule, **data)

    def evidence(self, seed, wall, rule, assume):
        cov = {
            'explanation': rule,
            'obligations': len(self.obligations),
            'discharged': self.count('ok'),
            'undecided': self.count('undecided'),
            'refuted': self.count('violated'),
            'functions_analysed': sorted(self.functions),
            'library_models_used': sorted(self.leaves),
            'abstract_states': self.states,
            'transfer_steps': self.transitions,
            'final_states_compared': self.paths,
            'detail': [o.to_json() for o in self.obligations],
        }
        return {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
                'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': list(assume),
                'wall_s': round(wall, 2)}
