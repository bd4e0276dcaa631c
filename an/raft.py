"""Entry points of the Raft server and the abstract states they start from."""
from .terms import *
from .engine import Engine, State, NNSET, Hooks, short
from .models import RaftHooks, raft_model, NS
from .program import AnalysisBroken

THIS = ('this', 'raft_server')
LS = ('fld', THIS, 'log_store_')
SM = ('fld', THIS, 'state_machine_')
CFG = ('fld', THIS, 'config_')
STATE = ('fld', THIS, 'state_')
RS = NS + 'raft_server'


def nn(t):
    NNSET.add(t)
    return t


def base_state(extra=()):
    st = State()
    f = st.facts
    for w in ('#next', '#start'):
        nn(('fld', LS, w))
    f = f.add_le(C(1), ('fld', LS, '#start'))
    f = f.add_le(('fld', LS, '#start'), ('fld', LS, '#next'))
    for o in (STATE, LS, SM, CFG):
        f = f.add_ne(o, NULL)
    st.facts = f
    for lit in extra:
        st.facts = add_lit(st.facts, lit)
    return st


def add_lit(f, lit):
    op, a, b = lit
    n = {'eq': f.add_eq, 'ne': f.add_ne, 'le': f.add_le}[op](a, b)
    if n is None:
        raise AnalysisBroken('inconsistent entry assumption')
    return n


class Callbacks:
    """the function objects the constructor installs, found by running it abstractly"""

    def __init__(self, prog):
        self.p = prog
        hk = RaftHooks()
        found = {'threads': []}

        def rec(eng, st, ev):
            if ev.kind == 'ctor' and ev.name.startswith('std::thread'):
                for a in ev.args:
                    if a is not None and a[0] == 'lam' and a not in found['threads']:
                        found['threads'].append(a)
            if ev.kind in ('init', 'write'):
                v = ev.args[1]
                if v is not None and v[0] == 'lam' and ev.args[0] == THIS:
                    found[ev.name] = v
                if ev.kind == 'init' and ev.args[0][0] == 'new' and ev.args[0][1] == NS + 'peer':
                    if ev.name == 'hb_task_':
                        ex = st.store.get((v, 'exec_')) or (None,)
                        if ex[0] == 'lam':
                            found['hb'] = ex
            return None
        hk.record = rec
        eng = Engine(prog, hk, [raft_model])
        f = prog.method(RS, 'raft_server')
        st = State()
        st.set
        eng.run_ctor_entry(f, THIS, (('sym', 'ctx'),), st)
        self.found = found
        self.eng = eng
        for k in ('resp_handler_', 'ex_resp_handler_', 'election_exec_', 'hb'):
            if k not in found:
                raise AnalysisBroken('the constructor installs no ' + k)
        if not found['threads']:
            raise AnalysisBroken('the constructor starts no background thread')


class Entry:
    def __init__(self, name, fn, this, vals, facts=(), extra=None, kind=None):
        self.name, self.fn, self.this, self.vals, self.facts, self.extra, self.kind = \
            name, fn, this, vals, facts, extra, kind


REQ = ('sym', 'req')
RESP = ('sym', 'resp')
ERR = ('sym', 'err')
PEER = ('sym', 'peer')


def lam_entry(prog, name, lam, vals, facts=(), kind=None):
    f = prog.fns.get(lam[1])
    if f is None:
        raise AnalysisBroken('no body for the callback ' + name)
    return Entry(name, f, lam[3], vals, facts, dict(lam[2]), kind)


def raft_entries(prog, cb):
    mt = prog.enum(NS + 'msg_type')
    out = []
    pr = prog.method(RS, 'process_req')
    ty = ('fld', REQ, 'type_')
    for n, v in sorted(mt.items(), key=lambda x: x[1]):
        out.append(Entry('request:' + n, pr, THIS, (REQ,), (('eq', ty, C(v)),), kind=('req', n)))
    rty = ('fld', RESP, 'type_')
    for h in ('resp_handler_', 'ex_resp_handler_'):
        for n, v in sorted(mt.items(), key=lambda x: x[1]):
            out.append(lam_entry(prog, '%s:%s' % (h, n), cb.found[h], (RESP, NULL),
                                 (('eq', rty, C(v)), ('ne', RESP, NULL)), kind=(h, n)))
        out.append(lam_entry(prog, h + ':error', cb.found[h], (NULL, ERR), (('ne', ERR, NULL),), kind=(h, 'error')))
    out.append(lam_entry(prog, 'election timeout', cb.found['election_exec_'], (), kind=('timer',)))
    out.append(lam_entry(prog, 'heartbeat timeout', uncapture(cb.found['hb'], 'hb'), (PEER,), kind=('hb',)))
    for i, t in enumerate(cb.found['threads']):
        out.append(lam_entry(prog, 'background thread %d' % i, t, (), kind=('thread',)))
    for n in ('add_srv', 'remove_srv', 'append_entries', 'replicate_log', 'is_leader'):
        f = prog.method(RS, n)
        out.append(Entry('api:' + n, f, THIS, tuple(('sym', 'arg_' + p['n']) for p in f['params']), kind=('api', n)))
    out.extend(later_entries(prog, out))
    out.append(Entry('constructor', prog.method(RS, 'raft_server'), THIS, (('sym', 'ctx'),), kind=('ctor',)))
    out.append(Entry('destructor', prog.method(RS, '~raft_server'), THIS, (), kind=('dtor',)))
    return out


def uncapture(lam, tag):
    """captured objects made during the run that found the callback become unknowns of its own run"""
    def sub(t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'new':
            v = ('sym', '%s:%s' % (tag, short(t[1])))
            return v
        if t and t[0] == 'app':
            return ('sym', '%s:%s' % (tag, t[1]))
        return tuple(sub(x) for x in t)
    return (lam[0], lam[1], tuple((k, sub(v) if v is not None else v) for k, v in dict(lam[2]).items()), lam[3])


def later_entries(prog, ens):
    """callbacks installed while running: completion of a snapshot, retry of a request"""
    found = {}

    class H(RaftHooks):
        def record(self, eng, st, ev):
            if ev.kind == 'call' and ev.name == 'state_machine::create_snapshot':
                for a in ev.args:
                    if a is not None and a[0] == 'lam':
                        found.setdefault(('snap', a[1]), a)
            if ev.kind == 'call' and ev.name == 'delayed_task_scheduler::schedule':
                x = st.store.get((ev.args[1], 'exec_'))
                if x is not None and x[0] == 'lam':
                    found.setdefault(('retry', x[1]), x)
    for en in ens:
        if en.kind[0] == 'thread' or en.kind == ('ex_resp_handler_', 'error'):
            run_entry(prog, H(), en)
    out = []
    n = {}
    for (w, _), a in sorted(found.items()):
        i = n.setdefault(w, 0)
        n[w] += 1
        if w == 'snap':
            out.append(lam_entry(prog, 'snapshot completion %d' % i, uncapture(a, 'snp'), (('sym', 'result'), ('sym', 'err')), kind=('snapdone',)))
        elif len(prog.fns[a[1]]['params']) == 1:
            out.append(lam_entry(prog, 'heartbeat timeout of a new member %d' % i, uncapture(a, 'hb'), (PEER,), kind=('hb',)))
        else:
            out.append(lam_entry(prog, 'retry timer %d' % i, uncapture(a, 'retry'), (), kind=('retry',)))
    if 'snap' not in n:
        raise AnalysisBroken('nothing asks the state machine for a snapshot')
    return out


def run_entry(prog, hooks, en, extra=(), models=(raft_model,)):
    eng = Engine(prog, hooks, list(models))
    st = base_state(tuple(en.facts) + tuple(extra))
    if en.kind == ('ctor',):
        st = State()
        return eng, eng.run_ctor_entry(en.fn, en.this, en.vals, st)
    return eng, eng.run(en.fn, en.this, en.vals, st, extra=en.extra)
