"""C16: which lock protects what, and in which order locks are taken."""
from ..rule import *
from .timers import PEERS, LOCK
from .peers import completions

PLOCK = ('sub', THIS, 'peers_lock_')
# state of the server that is written under its lock
GUARDED = frozenset(('role_', 'leader_', 'state_', 'config_', 'votes_granted_', 'voted_servers_', 'election_completed_',
                     'config_changing_', 'catching_up_', 'steps_to_down_', 'srv_to_join_', 'conf_to_add_', 'prevote_state_',
                     'last_snapshot_'))
PROGRESS = frozenset(('next_log_idx_', 'matched_idx_'))
CHANGES = ('insert', 'erase', 'clear', 'assign', 'set', 'push', 'swap', 'pop')


class LockRule(Rule):
    @classmethod
    def entries(cls, prog, cb, ens):
        return list(ens) + completions(prog, cb, ens)

    def wants(self, en):
        return en.kind[0] != 'dtor'

    def held(self, st, m, mode=None):
        m = st.facts.canon(m)
        return any(x == m and (mode is None or y == mode) for x, y in st.locks)


class Guards(LockRule):
    name = 'guarded-by'
    doc = 'role, leader, term, vote, configuration, election and membership-change state is written only under the server lock, the ' \
          'peer table is changed only under its lock held exclusively and the server lock, and read under either, and a ' \
          'peer\'s replication progress is written only under the server lock or the lock of that peer; the constructor counts ' \
          'from the moment it starts a thread or a timer'
    must_see = ('state', 'table', 'read', 'progress', 'clients')
    # meta: other threads may run
    meta0 = 1

    def meta_for(self, en):
        return 0 if en.kind[0] == 'ctor' else 1

    def split(self, eng, st):
        return st.meta

    def event(self, eng, st, ev):
        if not st.meta:
            if ev.kind == 'ctor' and ev.name.startswith('std::thread') or ev.kind == 'call' and ev.name == 'delayed_task_scheduler::schedule':
                st.meta = 1
            return
        if st.ctl:
            return
        if ev.kind in ('write', 'cas') and ev.args:
            o = ev.args[0]
            if o == THIS and ev.name in GUARDED or o == self.state(eng, st) and o[0] != 'new':
                self.ob('state', ev.site)
                if not self.held(st, LOCK):
                    self.bad('write:' + ev.name, ev.site, '%s is written without the server lock' % ev.name, st, ev.stack)
            elif ev.name in PROGRESS and o[0] != 'new':
                self.ob('progress', ev.site)
                if not self.held(st, LOCK) and not self.held(st, ('sub', o, self.plock())):
                    self.bad('progress:' + ev.name, ev.site, 'the replication progress of a peer is written without its lock or the server lock', st, ev.stack)
        elif ev.kind == 'cont' and ev.args:
            c = ev.args[0]
            if c == PEERS:
                if ev.name in CHANGES or ev.name.startswith('emplace') or ev.name == 'operator[]':
                    self.ob('table', ev.site)
                    if not self.held(st, PLOCK, 'w') or not self.held(st, LOCK):
                        self.bad('table', ev.site, 'the peer table is changed without %s' % (
                            'its lock held exclusively' if not self.held(st, PLOCK, 'w') else 'the server lock'), st, ev.stack)
                else:
                    self.ob('read', ev.site)
                    if not self.held(st, PLOCK) and not self.held(st, LOCK):
                        self.bad('read', ev.site, 'the peer table is read without a lock', st, ev.stack)
            elif c == ('sub', THIS, 'rpc_clients_'):
                self.ob('clients', ev.site)
                if not self.held(st, ('sub', THIS, 'rpc_clients_lock_')):
                    self.bad('clients', ev.site, 'the table of clients is used without its lock', st, ev.stack)
            elif c in (('sub', THIS, 'voted_servers_'),) and ev.name in CHANGES and not self.held(st, LOCK):
                self.bad('write:voted', ev.site, 'the set of counted voters is changed without the server lock', st, ev.stack)

    def plock(self):
        return 'lock_'


def lock_class(m):
    """a lock by where it lives: the server's own ones by name, those of other objects by class and name"""
    if m[0] in ('sub', 'fld') and m[1] == THIS:
        return 'server.' + m[2]
    if m[0] in ('sub', 'fld'):
        o = m[1]
        if o[0] == 'new':
            return short(o[1]).split('<')[0] + '.' + m[2]
        return '*.' + m[2]
    return show(m)


class LockOrder(LockRule):
    name = 'lock-order'
    doc = 'no path acquires a non-recursive lock it holds (a shared hold may be repeated only under the server lock, which every ' \
          'exclusive holder has), and the relation "acquired while holding" between locks has no cycle over all entry points'
    must_see = ('acquire', 'nested')

    def wants(self, en):
        return True

    def on_lock(self, eng, st, m, mode, t, e):
        site = eng.site(e)
        self.ob('acquire', site)
        rec = 'recursive' in t
        c = lock_class(m)
        for h, hm in st.locks:
            if h == m:
                if rec:
                    continue
                if mode == 'r' and hm == 'r' and self.held(st, LOCK):
                    self.ob('again', site)
                    continue
                self.bad('self:' + c, site, '%s is acquired by a thread that holds it already' % c, st)
            elif not (rec and any(x == m for x, _ in st.locks)):
                hc = lock_class(h)
                self.ob('nested', site)
                if hc == c:
                    self.bad('same:' + c, site, 'two locks of the same kind (%s) are nested without an order between them' % c, st)
                self.ob('edge %s > %s' % (hc, c), site)
        if mode == 'w' and c == 'server.peers_lock_' and self.en.kind[0] != 'ctor' and not self.held(st, LOCK):
            self.bad('exclusive', site, 'the peer table lock is acquired exclusively without the server lock', st)

    def final(self, eng, st):
        if st.ctl[0] == 'done' and st.locks:
            self.bad('kept', self.endsite(), '%s may still be held when the entry point returns' % lock_class(st.locks[-1][0]), st)

    @classmethod
    def combine(cls, prog, ob):
        g, where = {}, {}
        for k in ob:
            if k.startswith('edge '):
                a, b = k[5:].split(' > ')
                g.setdefault(a, set()).add(b)
                where[(a, b)] = sorted(ob[k])[0]

        def path(a, b, seen):
            if a == b:
                return [a]
            seen.add(a)
            for x in sorted(g.get(a, ())):
                if x not in seen:
                    r = path(x, b, seen)
                    if r:
                        return [a] + r
            return None
        done = set()
        for a, b in sorted(where):
            r = path(b, a, set())
            if r and a != b and frozenset(r) not in done:
                done.add(frozenset(r))
                f, ln, en = where[(a, b)]
                back = where[(r[0], r[1])]
                yield Finding(cls.name, 'cycle/' + '>'.join(sorted(set(r))), (f, ln, en),
                              'locks are taken in opposite orders: %s > %s here, and %s at %s:%s (%s)' % (a, b, ' > '.join(r), back[0], back[1], back[2]), en)


RULES = [Guards, LockOrder]
