"""C13: election timer and heartbeats."""
from ..rule import *

SCHED, CANCEL = 'delayed_task_scheduler::schedule', 'delayed_task_scheduler::cancel'
PEERS = ('sub', THIS, 'peers_')
LOCK = ('sub', THIS, 'lock_')


class StepRule(Rule):
    """checks at the end of every step: the release of the server lock, or the end of the entry point"""

    def extra_facts(self, en):
        # only a follower is in prevote (rule prevote-ends of C12)
        if en.name == 'ex_resp_handler_:prevote_response':
            return (('eq', ('fld', THIS, 'role_'), self.enumv('srv_role', 'follower')),)
        return ()

    def norm(self, eng, st):
        if decided(st, 'eq', eng.csize(st, PEERS), C(0)) is True:
            st.cov = st.cov | {('all', 'hb', PEERS), ('all', 'off', PEERS)}

    def role(self, eng, st):
        return self.g(eng, st, 'role_')

    def leader(self, eng, st, r=None):
        """True / False / None"""
        return decided(st, 'eq', self.role(eng, st) if r is None else r, self.enumv('srv_role', 'leader'))

    def catching(self, eng, st, c=None):
        d = decided(st, 'eq', self.g(eng, st, 'catching_up_') if c is None else c, C(0))
        return None if d is None else not d

    def event(self, eng, st, ev):
        if ev.kind == 'lock' and ev.args[0] == LOCK and not any(m == LOCK for m, _ in st.locks):
            st.meta = self.opened(eng, st, st.meta)
        elif ev.kind == 'unlock' and ev.args[0] == LOCK and not any(m == LOCK for m, _ in st.locks):
            if st.ctl and st.ctl[0] in ('exit', 'exc'):
                return
            self.closed(eng, st, ev.site, ev.stack)
            if self.en.kind[0] == 'thread':
                st.meta = self.meta_for(self.en)
        else:
            self.on(eng, st, ev)

    def opened(self, eng, st, m):
        return m

    def closed(self, eng, st, site, stack=()):
        pass

    def on(self, eng, st, ev):
        pass


class ElectionTimer(StepRule):
    name = 'election-timer'
    doc = 'at the end of every step a follower or candidate that is not being brought up to date has its election timer scheduled ' \
          '(scheduled in this step, or untouched since an earlier one), a new leader has it stopped, and a step that heard from the ' \
          'leader of the current term has scheduled it anew'
    must_see = ('end', 'stopped', 'heard', 'start')
    hard = frozenset(('role_', 'catching_up_'))
    # meta: (timer, role at the start of the step, catching up at its start)
    R0, C0 = ('fld', THIS, 'role_'), ('fld', THIS, 'catching_up_')

    def wants(self, en):
        return en.kind[0] != 'dtor'

    def meta_for(self, en):
        return ('fired' if en.kind[0] == 'timer' else 'off' if en.kind[0] == 'ctor' else 'kept', self.R0, self.C0, 0)

    def split(self, eng, st):
        r = (self.leader(eng, st, st.meta[1]), self.catching(eng, st, st.meta[2]), st.meta[0], st.meta[3])
        if self.en.kind[0] == 'req':
            r += (decided(st, 'lt', nn(eng.peek(st, REQ, self.getf('req_msg', 'get_term'))), self.term(eng, st)),)
        return r

    def opened(self, eng, st, m):
        if self.en.kind[0] == 'thread':
            return ('kept', self.role(eng, st), self.g(eng, st, 'catching_up_'), 0)
        return m

    def on(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in (SCHED, CANCEL):
            if decided(st, 'eq', ev.args[1], self.g(eng, st, 'election_task_')) is not True:
                return
            t, r, c, h = st.meta
            st.meta = ('armed' if ev.name == SCHED else 'off', r, c, h or ev.name == SCHED)

    def closed(self, eng, st, site, stack=()):
        t, r0, c0, h = st.meta
        L = self.leader(eng, st)
        if L is True:
            if self.leader(eng, st, r0) is not True:
                self.ob('stopped', site)
                if t == 'armed' or t == 'kept' and not holds(st, 'eq', self.g(eng, st, 'election_task_'), NULL):
                    self.bad('running', site, 'a server becomes leader without its election timer being stopped', st, stack)
            return
        if self.catching(eng, st) is True:
            return
        self.ob('end', site)
        if t == 'armed':
            return
        if t == 'kept':
            r1, c1 = self.role(eng, st), self.g(eng, st, 'catching_up_')
            if self.leader(eng, st, r0) is not False and r1 != r0:
                self.bad('stepdown', site, 'a server stops leading without its election timer being scheduled', st, stack)
            if self.catching(eng, st, c0) is not False and c1 != c0:
                self.bad('caughtup', site, 'a server becomes a member without its election timer being scheduled', st, stack)
            return
        self.bad(t, site, 'a server that is not leader may be left without a scheduled election timer', st, stack)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        t, r0, c0, h = st.meta
        if self.en.kind[0] == 'ctor':
            self.ob('start', site)
            if t != 'armed':
                self.bad('start', site, 'a server starts without an election timer', st)
            return
        if self.en.kind[0] == 'timer' and t == 'fired' and not eng.quiet:
            self.closed(eng, st, site)
        if self.en.name in ('request:append_entries_request', 'request:install_snapshot_request'):
            if decided(st, 'lt', nn(eng.peek(st, REQ, self.getf('req_msg', 'get_term'))), self.term(eng, st)) is True:
                return
            if holds(st, 'eq', st.ctl[1], NULL) or self.catching(eng, st) is True or self.catching(eng, st, self.C0) is True:
                return
            self.ob('heard', site)
            if not h:
                self.bad('heard', site, 'a server that heard from its leader may not postpone its election timer', st)


class Heartbeats(StepRule):
    name = 'heartbeats'
    doc = 'a new leader enables and schedules the heartbeat of every peer, a peer added while leading gets one too, a fired ' \
          'heartbeat of an enabled peer is scheduled again while leading, and stepping down or removing a peer stops it'
    must_see = ('lead', 'step down', 'fired', 'removed', 'added')
    hard = frozenset(('role_',))
    # meta: (role at the start of the step, new peers entered in the table, new peers scheduled, peers stopped, fired peer scheduled)
    R0 = ('fld', THIS, 'role_')

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def meta_for(self, en):
        return (self.R0, frozenset(), frozenset(), frozenset(), 0)

    def split(self, eng, st):
        r = (self.leader(eng, st, st.meta[0]),)
        if self.en.kind[0] == 'hb':
            r += (st.meta[4], self.nothing(st))
        return r

    def opened(self, eng, st, m):
        if self.en.kind[0] == 'thread':
            return (self.role(eng, st),) + m[1:]
        return m

    def nothing(self, st):
        """the peer whose heartbeat fired is known to be disabled or gone"""
        for op, a, b in st.facts.lits():
            if op == 'eq':
                for x, y in ((a, b), (b, a)):
                    if y == C(0) and (x[0] == 'fld' and x[2] == 'hb_enabled_' or
                                      x[0] == 'app' and x[1] in ('has', 'size') and x[2] == PEERS):
                        return True
        return False

    def peer_of(self, eng, st, task):
        """the peer whose heartbeat task this is"""
        if task[0] == 'fld' and task[2] == 'hb_task_':
            return task[1]
        for k, v in st.store.items():
            if k[1] == 'hb_task_' and v == task:
                return k[0]
        return None

    def idx(self, x):
        if x[0] == 'fld' and x[2] == 'second' and x[1][0] == 'app' and x[1][1] == 'elem' and x[1][2] == PEERS:
            return x[1][4]
        return None

    def on(self, eng, st, ev):
        r0, ins, sch, off, f = st.meta
        if ev.kind == 'call' and ev.name in (SCHED, CANCEL):
            x = self.peer_of(eng, st, ev.args[1])
            if x is None:
                return
            i = self.idx(x)
            if ev.name == SCHED:
                if decided(st, 'eq', eng.peek(st, x, 'hb_enabled_'), C(0)) is True:
                    return
                if i is not None:
                    eng.cover(st, 'hb', PEERS, i)
                f = 1
                sch, off = sch | {x}, off - {x}
            else:
                off, sch = off | {x}, sch - {x}
                if i is not None:
                    eng.cover(st, 'off', PEERS, i)
                f = 0
            st.meta = (r0, ins, sch, off, f)
        elif ev.kind == 'write' and ev.name == 'hb_enabled_':
            x = ev.args[0]
            if holds(st, 'eq', ev.args[1], C(0)):
                st.meta = (r0, ins, sch - {x}, off, f)
        elif ev.kind == 'cont' and ev.args and ev.args[0] == PEERS:
            if ev.name == 'insert' and len(ev.args) > 2:
                x = ev.args[2]
                if x[0] == 'new' and holds(st, 'ne', x, NULL) and (len(ev.args) < 4 or ev.args[3] != C(1)):
                    st.meta = (r0, ins | {x}, sch, off, f)
            elif ev.name == 'erase' and len(ev.args) > 1:
                a = ev.args[1]
                if self.leader(eng, st) is False:
                    return
                if a[0] == 'it':
                    k = a[3]
                else:
                    k = ('app', 'pos', PEERS, eng.cver(st, PEERS), a)
                self.ob('removed', ev.site)
                if not any(self.idx(x) is not None and self.same(st, self.idx(x), k) for x in off) and \
                        not eng.covered_all(st, 'off', PEERS):
                    self.bad('removed', ev.site, 'a peer is taken out of the table while its heartbeat may go on', st, ev.stack)

    def same(self, st, a, b):
        if decided(st, 'eq', a, b) is True:
            return True
        return a[0] == b[0] == 'app' and a[1] == b[1] == 'pos' and decided(st, 'eq', a[4], b[4]) is True

    def added(self, eng, st, site, stack=(), outer=frozenset()):
        r0, ins, sch, off, f = st.meta
        ins -= outer
        if not ins:
            return
        if self.leader(eng, st) is not False:
            self.ob('added', site)
            for x in ins:
                if x not in sch:
                    self.bad('added', site, 'a peer is added by a leader without its heartbeat being scheduled', st, stack)
        st.meta = (r0, outer & st.meta[1], sch, off, f)

    def iter_end(self, eng, st, k):
        h = eng.headmeta
        if not eng.quiet and st.meta[1] - h[1]:
            self.added(eng, st, self.endsite(), outer=h[1])
        r0, ins, sch, off, f = st.meta
        st.meta = (r0, ins & h[1], sch & h[2] if not ins & h[1] else sch, off & h[3], f)

    def closed(self, eng, st, site, stack=()):
        r0, ins, sch, off, f = st.meta
        L0, L = self.leader(eng, st, r0), self.leader(eng, st)
        if L is True and L0 is not True:
            self.ob('lead', site)
            if not eng.covered_all(st, 'hb', PEERS):
                self.bad('lead', site, 'a new leader may not schedule the heartbeat of some peer', st, stack)
        if L is False and L0 is not False and self.role(eng, st) != r0:
            self.ob('step down', site)
            # after an invitation to join the heartbeats end when they fire (checked below)
            if self.en.name != 'request:join_cluster_request' and not eng.covered_all(st, 'off', PEERS):
                self.bad('stepdown', site, 'a server that stops leading may leave the heartbeat of some peer running', st, stack)
        self.added(eng, st, site, stack)
        if self.en.kind[0] == 'hb' and L is False and f:
            self.bad('notleading', site, 'a server that is not leader schedules a heartbeat', st, stack)
        if self.en.kind[0] == 'hb' and L is not False:
            self.ob('fired', site)
            if not f and not self.nothing(st):
                self.bad('fired', site, 'a leader may not schedule the next heartbeat of a peer after one fired', st, stack)


RULES = [ElectionTimer, Heartbeats]
