"""Rule framework: a rule watches the events of every path of a set of entry
points, keeps a typestate (State.meta) and reports constructs that break it."""
import json
import os
from .terms import *
from .engine import Engine, State, NNSET, Hooks, short, subterms
from .models import RaftHooks, raft_model, NS, lget, lver
from .program import AnalysisBroken
from . import raft
from .raft import THIS, LS, SM, CFG, STATE, RS, REQ, RESP, ERR, PEER


class Finding:
    def __init__(self, rule, key, site, msg, entry='', facts=(), stack=()):
        self.rule, self.key, self.site, self.msg, self.entry = rule, key, site, msg, entry
        self.facts, self.stack = list(facts), list(stack)

    def ident(self):
        return (self.rule, self.key)

    def as_dict(self):
        return {'rule': self.rule, 'key': self.key, 'site': '%s:%s in %s' % tuple(self.site), 'message': self.msg,
                'entry': self.entry, 'facts_on_path': self.facts[:60], 'call_stack': self.stack}


class Ctx:
    """what a rule collects while it runs on one entry"""

    def __init__(self):
        self.findings = {}
        self.obligations = {}
        self.notes = set()


class Rule(RaftHooks):
    name = '?'
    doc = ''
    meta0 = ()
    min_obligations = 1
    # several obligations kinds may be required to be seen at least once
    must_see = ()

    def __init__(self, prog):
        self.p = prog
        self.ctx = Ctx()
        self.en = None

    # -- selection
    def wants(self, en):
        return True

    def extra_facts(self, en):
        return ()

    def begin(self, en):
        pass

    # -- hooks
    def record(self, eng, st, ev):
        return self.event(eng, st, ev)

    def event(self, eng, st, ev):
        return None

    def final(self, eng, st):
        pass

    # fields of the server that another thread may change until the server lock is taken
    interfere = ('role_', 'config_changing_', 'catching_up_', 'election_completed_', 'votes_granted_')
    interfere_state = True

    def on_lock(self, eng, st, m, mode, t, e):
        """what was found out before the server lock was taken says nothing any more"""
        if getattr(self, "plain", False) or m != ("sub", THIS, "lock_") or any(x == m for x, _ in st.locks) or self.en.kind[0] in ('ctor', 'dtor'):
            return
        locs = [(THIS, f) for f in self.interfere]
        if self.interfere_state:
            o = self.state(eng, st)
            locs += [(o, self.getf('srv_state', 'get_term')), (o, self.getf('srv_state', 'get_voted_for'))]
        new = None
        for o, f in locs:
            v = eng.peek(st, o, f)
            if v[0] == 'c':
                st.set((o, f), eng.fresh(st, f, True))
                continue
            if new is None:
                f0 = raft.base_state(tuple(self.en.facts) + tuple(self.extra_facts(self.en))).facts.lits()
                f0 = set(f0)
                new = [x for x in st.facts.lits() if x not in f0]
            if any(v in subterms(y) for x in new for y in x[1:]):
                st.set((o, f), eng.fresh(st, f, True))

    # -- reporting
    def ob(self, kind, site):
        self.ctx.obligations.setdefault(kind, set()).add((site[0], site[1], self.en.name if self.en else ''))

    def bad(self, key, site, msg, st=None, stack=()):
        k = '%s/%s' % (self.en.name if self.en else '', key)
        if k not in self.ctx.findings:
            facts = st.facts.show() if st is not None else ()
            self.ctx.findings[k] = Finding(self.name, k, site, msg, self.en.name if self.en else '', facts, stack)

    def need(self, cond, key, ev, msg, st):
        self.ob(key, ev.site)
        if not cond:
            self.bad(key, ev.site, msg, st, ev.stack)
        return cond

    # -- views of the server's state
    def g(self, eng, st, f, obj=THIS):
        return eng.peek(st, obj, f, '')

    def state(self, eng, st):
        return eng.peek(st, THIS, 'state_', '')

    def term(self, eng, st):
        return nn(eng.peek(st, self.state(eng, st), self.getf('srv_state', 'get_term')))

    def vote(self, eng, st):
        return eng.peek(st, self.state(eng, st), self.getf('srv_state', 'get_voted_for'))

    def log(self, eng, st):
        return eng.peek(st, THIS, 'log_store_')

    def nxt(self, eng, st):
        return lget(st, self.log(eng, st), '#next')

    def start(self, eng, st):
        return lget(st, self.log(eng, st), '#start')

    def getf(self, cls, getter):
        """the field behind a public accessor"""
        c = self.p.__dict__.setdefault('_getf', {})
        k = (cls, getter)
        if k not in c:
            o = ('sym', 'o')
            eng = Engine(self.p, RaftHooks(), [raft_model])
            fs, todo = [], [NS + cls]
            while todo and not fs:
                t = todo.pop(0)
                fs = self.p.find(t + '::' + getter, 0)
                todo.extend((self.p.classes.get(t) or {}).get('bases', []))
            if not fs:
                raise AnalysisBroken('no accessor %s::%s' % k)
            r = [v for s, v in eng.inline(fs[0], o, (), State(), {'ln': 0}) if not s.ctl]
            if len(r) != 1 or r[0][0] not in ('fld', 'sub') or r[0][1] != o:
                raise AnalysisBroken('accessor %s::%s does not read a field' % k)
            c[k] = r[0][2]
        return c[k]

    def mf(self, eng, st, cls, obj, getter):
        return eng.peek(st, obj, self.getf(cls, getter))

    def base_f(self, cls, getter):
        return self.getf(cls, getter)

    def enumv(self, e, n):
        d = self.p.enum(NS + e)
        if n not in d:
            raise AnalysisBroken('no enumerator %s::%s' % (e, n))
        return C(d[n])

    def loc(self, f):
        return (f['file'], f['ln'], f['q'])

    def endsite(self):
        return self.loc(self.en.fn)


def only(R, *keys):
    """the part of another property's rule that reports the given kinds of finding"""
    class Part(R):
        name = R.name
        doc = R.doc + ' (only: %s)' % ', '.join(keys)
        must_see = ()

        def bad(self, key, site, msg, st=None, stack=()):
            if any(key == k or key.startswith(k + ':') for k in keys):
                R.bad(self, key, site, msg, st, stack)
    Part.__name__ = R.__name__ + 'Part'
    return Part


def nn(t):
    NNSET.add(t)
    return t


def holds(st, op, a, b):
    return st.facts.holds((op, a, b))


def decided(st, op, a, b):
    """True / False / None"""
    if op == 'eq':
        return st.facts.decide_eq(a, b)
    if op == 'le':
        return st.facts.decide_le(a, b)
    if op == 'lt':
        return st.facts.decide_le(add(a, C(1)), b)
    raise ValueError(op)


# ---------------------------------------------------------------- arithmetic
def ev_term(t, env):
    """integer value of a term under an assignment of atoms, None if unknown"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'lin':
        r = t[1]
        for a, n in t[2]:
            v = ev_term(a, env)
            if v is None:
                return None
            r += n * v
        return r
    if k == 'app' and t[1] in ('div', 'mul', '%', '&', '|', 'min', 'max', 'std::min', 'std::max'):
        vs = [ev_term(x, env) for x in t[2:]]
        if any(v is None for v in vs):
            return None
        a, b = vs[0], vs[1]
        if t[1] == 'div':
            return abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1) if b else None
        if t[1] == 'mul':
            return a * b
        if t[1] == '%':
            return a % b if b else None
        if t[1] == '&':
            return a & b
        if t[1] == '|':
            return a | b
        return min(a, b) if 'min' in t[1] else max(a, b)
    return None


def feasible(facts, env):
    """False when some fact is certainly violated under env"""
    for op, a, b in facts.lits():
        x, y = ev_term(a, env), ev_term(b, env)
        if x is None or y is None:
            continue
        if op == 'eq' and x != y or op == 'le' and x > y or op == 'ne' and x == y:
            return False
    return True


def quorum_ok(facts, votes, peers, limit=40, canon=True):
    """every (votes, number of peers) the facts allow is a strict majority of peers+1;
    None when votes cannot be related to the number of peers"""
    v, p = facts.canon(votes), facts.canon(peers)
    bad = []
    for n in range(0, limit):
        for k in range(0, limit + 2):
            env = {p: n}
            if v[0] == 'c':
                if v[1] != k:
                    continue
            elif p[0] == 'c' and p[1] != n:
                continue
            else:
                c, items = lin(v)
                if len(items) == 1 and items[0][1] == 1:
                    if items[0][0] == p:
                        if n + c != k:
                            continue
                    env[items[0][0]] = k - c
                else:
                    env[v] = k
            if p[0] != 'c':
                env[p] = n
            elif p[1] != n:
                continue
            if 2 * k <= n + 1 and feasible(facts, env):
                bad.append((k, n))
    return not bad, bad[:3]


# ---------------------------------------------------------------- running
def run_rule(prog, rule, en):
    rule.en = en
    rule.begin(en)
    extra = tuple(rule.extra_facts(en))
    eng = Engine(prog, rule, list(getattr(rule, 'models', (raft_model,))))
    rule.eng = eng
    if en.kind == ('ctor',):
        st = State()
        st.meta = rule.meta_for(en) if hasattr(rule, 'meta_for') else rule.meta0
        if hasattr(rule, 'prepare'):
            rule.prepare(eng, st, en)
        res = eng.run_ctor_entry(en.fn, en.this, en.vals, st)
    else:
        st = raft.base_state(tuple(en.facts) + extra) if not getattr(rule, 'plain', False) else State()
        if getattr(rule, 'plain', False):
            for lit in tuple(en.facts) + extra:
                st.facts = raft.add_lit(st.facts, lit)
        st.meta = rule.meta_for(en) if hasattr(rule, 'meta_for') else rule.meta0
        if hasattr(rule, 'prepare'):
            rule.prepare(eng, st, en)
        res = eng.run(en.fn, en.this, en.vals, st, extra=en.extra)
    for s in res:
        rule.final(eng, s)
    if hasattr(rule, 'done'):
        rule.done(eng, res)
    return eng, res
