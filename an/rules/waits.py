"""C17: condition variables. The condition of each wait, the mutex it is judged under and who makes it true."""
from ..rule import *
from ..raft import Entry, lam_entry, uncapture

AR = NS + 'async_result<'
SVC = NS + 'asio_service_impl'


# no notification is owed after a change of these when there is nothing to apply
UNLESS = ('quick_commit_idx_', 'log')


class Spec:
    def __init__(self, name, mutex, cv, conds, fields, all_=False):
        self.name, self.mutex, self.cv, self.conds, self.fields, self.all = name, mutex, cv, conds, fields, all_


def flag(f):
    return lambda r, eng, st, o: [('eq', r.g(eng, st, f, o), C(1))]


def work(r, eng, st, o):
    q, s = nn(r.g(eng, st, 'quick_commit_idx_', o)), nn(r.g(eng, st, 'sm_commit_index_', o))
    return [('le', add(s, C(1)), q), ('le', add(s, C(2)), r.nxt(eng, st))]


COMMIT = Spec('applier', 'commit_lock_', 'commit_cv_', [flag('stopping_'), work], ('stopping_', 'quick_commit_idx_'))
STOPPED = Spec('destructor', 'stopping_lock_', 'ready_to_stop_cv_', [flag('commit_stopped_')], ('commit_stopped_',))
RESULT = Spec('result', 'lock_', 'cv_', [flag('has_result_')], ('has_result_',), True)
FLUSHED = Spec('service stop', 'stopping_lock_', 'stopping_cv_', [flag('flushed_')], ('flushed_',))


def entry(f, kind, facts=()):
    return Entry('%s %s' % (kind[0], short(f['q']) if kind[0] != 'result' else f['q'][len(NS):]), f, THIS,
                 tuple(('sym', 'arg_' + p['n']) for p in f['params']), facts, kind=kind)


def flush_callbacks(prog):
    """what the service's own timer runs"""
    f = prog.method(SVC, 'run')
    found = {}

    class H(RaftHooks):
        def record(self, eng, st, ev):
            if ev.kind == 'ext' and ev.name.endswith('::async_wait'):
                for a in ev.args:
                    if a is not None and a[0] == 'lam':
                        found.setdefault(a[1], a)
    eng = Engine(prog, H(), [raft_model])
    eng.run(f, THIS, (), State())
    if not found:
        raise AnalysisBroken('the service arms no flush timer')
    return [lam_entry(prog, 'flush timer', uncapture(a, 'svc'), (('sym', 'err'),), kind=('flush',)) for a in found.values()]


def result_fns(prog, name):
    out, seen = [], set()
    for f in prog.fns.values():
        if f['q'].startswith(AR) and f.get('name') == name and f.get('body') is not None:
            if f['q'] + str([p.get('t') for p in f['params']]) not in seen:
                seen.add(f['q'] + str([p.get('t') for p in f['params']]))
                out.append(f)
    return out


class Wakeups(Rule):
    name = 'wakeups'
    doc = 'a wait happens with the mutex its condition is changed under and only when that condition, judged since the mutex was ' \
          'taken, does not hold; whoever can make the condition hold takes the mutex at or after the change and then notifies; a thread that ' \
          'waited goes on only when the condition holds'
    must_see = ('wait:applier', 'wait:destructor', 'wait:result', 'wait:service stop', 'set:applier', 'set:destructor', 'set:result',
                'set:service stop', 'after:result', 'after:destructor', 'after:service stop')
    vital = {'set:applier': 'nothing wakes the applier', 'set:destructor': 'nothing says that the applier has stopped',
             'set:result': 'nothing marks a result as there', 'set:service stop': 'nothing reports the final flush'}
    # meta: per spec 0 clean, 1 changed without the mutex, 2 notify is owed
    meta0 = (0, 0, 0, 0)
    SPECS = (COMMIT, STOPPED, RESULT, FLUSHED)

    @classmethod
    def entries(cls, prog, cb, ens):
        out = [e for e in ens if e.kind[0] != 'ctor']
        for n in ('set_result', 'get', 'when_ready'):
            fs = result_fns(prog, n)
            if not fs and n != 'when_ready':
                raise AnalysisBroken('no instantiation of async_result::' + n)
            out += [entry(f, ('result', n)) for f in fs]
        out.append(entry(prog.method(SVC, 'stop'), ('svc', 'stop')))
        out += flush_callbacks(prog)
        return out

    def boundary(self, eng, callee):
        if (callee.get('cls') or '').startswith(AR[:-1]) and self.en.kind[0] == 'result':
            return False
        return RaftHooks.boundary(self, eng, callee)

    def specs(self):
        k = self.en.kind[0]
        if k == 'result':
            return (2,)
        if k in ('svc', 'flush'):
            return (3,)
        return (0, 1)

    def norm(self, eng, st):
        if st.meta[0] in (1, 2) and self.refuted(st, work(self, eng, st, THIS)):
            st.meta = (0,) + st.meta[1:]
        for i in self.specs():
            for f in self.SPECS[i].fields:
                v = st.store.get((THIS, f))
                if v is not None and v[0] != 'c' and f not in UNLESS:
                    for c in (C(0), C(1)):
                        if st.facts.decide_eq(v, c) is True:
                            st.set((THIS, f), c)

    def split(self, eng, st):
        if self.en.kind[0] == 'svc':
            return st.meta, st.facts.decide_eq(self.g(eng, st, 'stopping_'), C(1))
        if self.en.kind[0] == 'thread' and self.held(st, ('sub', THIS, COMMIT.mutex)):
            w = work(self, eng, st, THIS)
            return st.meta, tuple(self.refuted(st, [l]) for l in w) if self.refuted(st, w) else ()
        return st.meta

    def conds(self, eng, st, i, o):
        return [c(self, eng, st, o) for c in self.SPECS[i].conds]

    def refuted(self, st, lits):
        """the conjunction cannot hold"""
        for op, a, b in lits:
            if op == 'eq' and st.facts.decide_eq(a, b) is False:
                return True
            if op == 'le' and st.facts.decide_le(a, b) is False:
                return True
        f = st.facts
        for l in lits:
            f = raft.add_lit(f, l)
            if f is None:
                return True
        return False

    def forget(self, eng, st, i, o):
        for f in self.SPECS[i].fields:
            st.set((o, f), eng.fresh(st, f, True))
        if i == 0:
            st.set((o, 'sm_commit_index_'), eng.fresh(st, 'sm', True))

    def on_lock(self, eng, st, m, mode, t, e):
        if m[0] != 'sub':
            return
        for i in self.specs():
            s = self.SPECS[i]
            if m[2] == s.mutex:
                if st.meta[i] in (1, 11):
                    st.meta = st.meta[:i] + (st.meta[i] + 1,) + st.meta[i + 1:]
                elif st.meta[i] == 0 and (i != 0 or self.en.kind[0] == 'thread'):
                    # what was read before the mutex was taken says nothing
                    self.forget(eng, st, i, m[1])

    def held(self, st, m):
        m = st.facts.canon(m)
        return any(x == m for x, _ in st.locks)

    def owe(self, eng, st, i, o, site, field):
        s = self.SPECS[i]
        self.ob('set:' + s.name, site)
        n = (2 if self.held(st, ('sub', o, s.mutex)) else 1) + (10 if field not in UNLESS else 0)
        st.meta = st.meta[:i] + (n,) + st.meta[i + 1:]

    def event(self, eng, st, ev):
        if st.ctl:
            return
        for i in self.specs():
            s = self.SPECS[i]
            if ev.kind in ('write', 'cas') and ev.name in s.fields and ev.args and ev.args[0][0] != 'new':
                o, v = ev.args[0], ev.args[1]
                if ev.name == 'quick_commit_idx_' or v != C(0):
                    self.owe(eng, st, i, o, ev.site, ev.name)
            elif i == 0 and ev.kind == 'call' and ev.name in ('log_store::append', 'log_store::write_at', 'log_store::apply_pack') \
                    and self.en.kind[0] == 'req' and not self.leading(eng, st) and st.meta[0] == 0:
                st.meta = (1,) + st.meta[1:]
            elif ev.kind == 'notify' and ev.args[0][0] == 'sub' and ev.args[0][2] == s.cv:
                if s.all and ev.name != 'notify_all':
                    self.bad('one', ev.site, 'several callers may wait for this, but only one of them is woken', st, ev.stack)
                if st.meta[i] % 10 == 2:
                    st.meta = st.meta[:i] + (0,) + st.meta[i + 1:]

    def leading(self, eng, st):
        return st.facts.decide_eq(self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader')) is True

    def on_wait(self, eng, st, cv, lk, lam, e):
        for i in self.specs():
            s = self.SPECS[i]
            if cv[0] != 'sub' or cv[2] != s.cv:
                continue
            site, o = eng.site(e), cv[1]
            self.ob('wait:' + s.name, site)
            m = lk[1] if lk[0] == 'lock' else NULL
            if m[0] not in ('sub',) or m[2] != s.mutex or m[1] != o:
                self.bad('mutex', site, 'the wait does not use the mutex under which its condition is changed', st)
                return
            for k, lits in enumerate(self.conds(eng, st, i, o)):
                if lam is None:
                    if not self.refuted(st, lits):
                        self.bad('unchecked:%d' % k, site, 'the thread waits although what it waits for may hold already (judged since the mutex was taken)', st)
                    continue
                s2 = st.copy()
                self.forget(eng, s2, i, o)
                for l in self.conds(eng, s2, i, o)[k]:
                    s2.facts = raft.add_lit(s2.facts, l)
                eng.quiet += 1
                try:
                    for s3, b in eng.invoke(lam, (), s2, e):
                        if s3.ctl:
                            continue
                        for _, t in eng.truth(s3, b, 'bool'):
                            if not t:
                                self.bad('ignores:%d' % k, site, 'the thread goes on waiting although what it waits for holds', st)
                finally:
                    eng.quiet -= 1
            self.forget(eng, st, i, o)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] not in ('done', 'exc'):
            return
        k = self.en.kind
        exc = st.ctl[0] == 'exc'
        for i in self.specs():
            s = self.SPECS[i]
            if not exc and st.meta[i] and (st.meta[i] > 10 or not self.refuted(st, work(self, eng, st, THIS))):
                self.bad('owed:' + s.name, self.endsite(),
                         'the condition of a wait (%s) may become true without %s' % (
                             s.name, 'a notification afterwards' if st.meta[i] % 10 == 2 else
                             'its mutex being taken at or after the change: a thread about to wait misses the notification'), st)
        if k == ('result', 'get') or k[0] == 'dtor' and not exc or k == ('svc', 'stop') and not exc:
            i = self.specs()[-1]
            s = self.SPECS[i]
            if k[0] == 'svc' and not st.facts.decide_eq(self.g(eng, st, 'stopping_'), C(1)):
                return
            self.ob('after:' + s.name, self.endsite())
            c = self.conds(eng, st, i, THIS)[0][0]
            if st.facts.decide_eq(c[1], c[2]) is not True:
                self.bad('early', self.endsite(), 'the waiter (%s) goes on although what it waits for may not hold' % s.name, st)
        if k[0] == 'thread' and not exc:
            self.ob('applier ends', self.endsite())
            if st.facts.decide_eq(self.g(eng, st, 'commit_stopped_'), C(1)) is not True:
                self.bad('unsaid', self.endsite(), 'the background thread ends without saying so: the destructor waits for ever', st)


class StopProtocol(Rule):
    name = 'stop-protocol'
    doc = 'the destructor asks the applier to stop before it waits for it; the service\'s stop marks itself stopping and cancels the ' \
          'flush timer, in that order and under its mutex, before it waits; each expiry of that timer either arms it again, in the same hold of the ' \
          'mutex in which it saw that the service is not stopping, or flushes and reports that it did'
    must_see = ('ask', 'cancel', 'rearm', 'report')
    vital = {'rearm': 'the flush timer is never armed again', 'report': 'nothing reports the final flush',
             'cancel': 'stop does not wait for the final flush', 'ask': 'the destructor does not wait for the applier'}
    # meta: (stopping written, timer cancelled, armed, loggers walked since, reported)
    meta0 = (0, 0, 0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        return [e for e in ens if e.kind[0] == 'dtor'] + [entry(prog.method(SVC, 'stop'), ('svc', 'stop'))] + flush_callbacks(prog)

    def split(self, eng, st):
        return st.meta

    def on_lock(self, eng, st, m, mode, t, e):
        if m[0] == 'sub' and m[2] == 'stopping_lock_' and self.en.kind[0] == 'flush':
            st.set((m[1], 'stopping_'), eng.fresh(st, 'stopping', True))

    def held(self, st, n):
        return any(x[0] == 'sub' and x[2] == n for x, _ in st.locks)

    def event(self, eng, st, ev):
        if st.ctl:
            return
        a, c, r, f = st.meta
        k = self.en.kind[0]
        if ev.kind == 'write' and ev.name == 'stopping_' and ev.args[1] == C(1):
            st.meta = (1, c, r, f)
        elif ev.kind == 'wait':
            if k == 'dtor':
                self.need(a, 'ask', ev, 'the destructor waits for the applier without having asked it to stop', st)
            if k == 'svc':
                self.need(a and c, 'cancel', ev, 'stop waits for the final flush without having %s' % ('cancelled the timer' if a else 'marked the service as stopping'), st)
        elif ev.kind == 'ext' and ev.args and ev.args[0] is not None and ev.args[0][0] == 'sub' and ev.args[0][2] == 'log_flush_tm_':
            n = ev.name.rsplit('::', 1)[-1]
            if k == 'svc' and n in ('cancel', 'cancel_one', 'expires_after', 'expires_at'):
                if a:
                    st.meta = (a, 1, r, f)
            if k == 'flush' and n == 'async_wait':
                self.ob('rearm', ev.site)
                if not self.held(st, 'stopping_lock_') or st.facts.decide_eq(self.g(eng, st, 'stopping_', ev.args[0][1]), C(0)) is not True:
                    self.bad('rearm', ev.site, 'the flush timer is armed again although the service may be stopping: its cancellation '
                                               'can come in between and stop waits for ever', st, ev.stack)
                st.meta = (a, c, 1, f)
        elif ev.kind == 'write' and ev.name == 'flushed_' and ev.args[1] == C(1) and k == 'flush':
            self.ob('report', ev.site)
            st.meta = (a, c, r, 1)

    def final(self, eng, st):
        if st.ctl and st.ctl[0] == 'done' and self.en.kind[0] == 'flush' and not st.meta[2] and not st.meta[3]:
            self.bad('silent', self.endsite(), 'an expiry of the flush timer neither arms it again nor reports the final flush', st)



class Deliver(Rule):
    name = 'deliver-once'
    doc = 'value, error and the mark that they are there are set together under the lock; the handler that was attached at that moment, and no ' \
          'other, is run once with that value and error; a handler attached later is run at once exactly when the mark was there in the ' \
          'same hold of the lock in which it was attached; a caller gets the value when there is no error and the error otherwise'
    must_see = ('set', 'set:run', 'set:none', 'attach', 'attach:run', 'attach:wait', 'get:value', 'get:error', 'made')
    vital = {k: 'no path of the result object does this' for k in must_see}
    plain = True
    # meta: (handler runs so far, mark set / handler stored)
    meta0 = (0, 0)
    H, M = (THIS, '#h'), (THIS, '#m')

    @classmethod
    def entries(cls, prog, cb, ens):
        out = []
        for n in ('set_result', 'when_ready', 'get', 'async_result'):
            fs = result_fns(prog, n)
            if not fs:
                raise AnalysisBroken('no instantiation of async_result::' + n)
            for f in fs:
                en = entry(f, ('result', n))
                if n == 'async_result':
                    en.kind = ('ctor',)
                out.append(en)
        return out

    def boundary(self, eng, callee):
        return False if (callee.get('cls') or '').startswith(AR[:-1]) else RaftHooks.boundary(self, eng, callee)

    def split(self, eng, st):
        h = st.store.get(self.H)
        m = st.store.get(self.M)
        return st.meta, self.null(st, h), m is not None and st.facts.decide_eq(m, C(1)), \
            st.facts.decide_eq(self.g(eng, st, 'err_'), NULL) if self.en.kind == ('result', 'get') else None

    def null(self, st, h):
        return st.facts.decide_eq(h, NULL) if h is not None else None

    def on_lock(self, eng, st, m, mode, t, e):
        if m == ('sub', THIS, 'lock_'):
            self.forget(eng, st)

    def forget(self, eng, st):
        k = self.en.kind
        if k == ('result', 'set_result'):
            st.set((THIS, 'handler_'), eng.fresh(st, 'handler'))
        elif k == ('result', 'when_ready'):
            st.set((THIS, 'has_result_'), eng.fresh(st, 'mark', True))

    def after_wait(self, eng, st, e):
        for f in ('has_result_', 'err_', 'result_', 'handler_'):
            st.set((THIS, f), eng.fresh(st, f, True))

    def norm(self, eng, st):
        v = self.g(eng, st, 'has_result_')
        if v[0] != 'c' and st.facts.decide_eq(v, C(1)) is True:
            st.set((THIS, 'has_result_'), C(1))

    def locked(self, st):
        return any(x == ('sub', THIS, 'lock_') for x, _ in st.locks)

    def event(self, eng, st, ev):
        if st.ctl or self.en.kind == ('ctor',):
            return
        k = self.en.kind[1]
        if ev.kind == 'unlock' and ev.args[0] == ('sub', THIS, 'lock_'):
            self.forget(eng, st)
        elif ev.kind == 'write' and ev.args[0] == THIS and ev.name in ('result_', 'err_', 'has_result_', 'handler_'):
            self.ob('write', ev.site)
            if not self.locked(st):
                self.bad('lock:' + ev.name, ev.site, '%s is written without the lock' % ev.name, st, ev.stack)
            if k == 'set_result' and ev.name == 'has_result_':
                st.set(self.H, self.g(eng, st, 'handler_'))
                st.meta = (st.meta[0], 1)
                if ev.args[1] != C(1):
                    self.bad('mark', ev.site, 'setting the result does not mark it as there', st, ev.stack)
            elif k == 'when_ready' and ev.name == 'handler_':
                st.set(self.M, self.g(eng, st, 'has_result_'))
                st.meta = (st.meta[0], 1)
        elif ev.kind == 'invoke':
            st.meta = (min(st.meta[0] + 1, 2), st.meta[1])
            h = ev.args[0]
            want = st.store.get(self.H) if k == 'set_result' else self.g(eng, st, 'handler_')
            if want is None or st.facts.decide_eq(h, want) is not True:
                self.bad('which', ev.site, 'what is run is not the handler that was attached when the result was set', st, ev.stack)
            if len(ev.args) > 2:
                for a, f in zip(ev.args[1:3], ('result_', 'err_')):
                    if st.facts.decide_eq(a, self.g(eng, st, f)) is not True:
                        self.bad('args', ev.site, 'the handler is not given the %s that was set' % ('value' if f == 'result_' else 'error'), st, ev.stack)
            if not st.meta[1]:
                self.bad('early', ev.site, 'the handler runs before the %s' % ('result is marked as there' if k == 'set_result' else 'handler is attached'), st, ev.stack)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] not in ('done', 'exc'):
            return
        site = self.endsite()
        if self.en.kind == ('ctor',):
            self.ob('made', site)
            ps = [p['n'] for p in self.en.fn['params']]
            mark = self.g(eng, st, 'has_result_')
            h = ps and 'function' in self.en.fn['params'][0].get('t', '')
            if st.facts.decide_eq(mark, C(1 if ps and not h else 0)) is not True:
                self.bad('made', site, 'a new result object %s' % ('with a value is not marked as having it' if ps and not h else 'without a value is marked as having one'), st)
            if ps and st.facts.decide_eq(self.g(eng, st, 'handler_' if h else 'result_'), self.en.vals[0]) is not True:
                self.bad('kept', site, 'a new result object does not keep the %s it is given' % ('handler' if h else 'value'), st)
            return
        k = self.en.kind[1]
        n, mark = st.meta
        if k == 'get':
            e = st.facts.decide_eq(self.g(eng, st, 'err_'), NULL)
            if st.facts.decide_eq(self.g(eng, st, 'has_result_'), C(1)) is not True:
                self.bad('default', site, 'a caller goes on although no result may be there', st)
            if st.ctl[0] == 'done':
                self.ob('get:value', site)
                if e is not True:
                    self.bad('value', site, 'a caller gets a value although an error may have been set', st)
                if st.facts.decide_eq(st.ctl[1], self.g(eng, st, 'result_')) is not True:
                    self.bad('other', site, 'a caller gets something else than the value that was set', st)
            else:
                self.ob('get:error', site)
                if e is not False:
                    self.bad('error', site, 'a caller gets an exception although no error may have been set', st)
            return
        if st.ctl[0] != 'done':
            return
        if k == 'set_result':
            self.ob('set', site)
            if not mark:
                self.bad('unmarked', site, 'the result is not marked as there', st)
                return
            for f, v in zip(('result_', 'err_'), self.en.vals):
                if st.facts.decide_eq(self.g(eng, st, f), v) is not True:
                    self.bad('kept:' + f, site, 'the %s given is not kept' % ('value' if f == 'result_' else 'error'), st)
            e = self.null(st, st.store.get(self.H))
            self.ob('set:run' if n else 'set:none', site)
            if n > 1:
                self.bad('twice', site, 'the handler runs more than once', st)
            elif n == 1 and e is not False:
                self.bad('absent', site, 'a handler is run although none may be attached when the result is set', st)
            elif n == 0 and e is not True:
                self.bad('lost', site, 'the handler attached when the result is set may not be run', st)
        elif k == 'when_ready':
            self.ob('attach', site)
            if not mark:
                self.bad('dropped', site, 'the handler is not attached', st)
                return
            m = st.facts.decide_eq(st.store[self.M], C(1))
            self.ob('attach:run' if n else 'attach:wait', site)
            if n > 1:
                self.bad('twice', site, 'the handler runs more than once', st)
            elif n == 1 and m is not True:
                self.bad('unready', site, 'the handler is run although the result may not have been there when it was attached: it runs again when the result comes', st)
            elif n == 0 and m is not False and st.facts.decide_eq(st.store[self.M], C(0)) is not True:
                self.bad('missed', site, 'the handler is not run although the result may have been there when it was attached', st)
            if not n and st.facts.decide_eq(self.g(eng, st, 'handler_'), self.en.vals[0]) is not True:
                self.bad('kept', site, 'the handler given is not the one kept', st)


RULES = [Wakeups, StopProtocol, Deliver]
