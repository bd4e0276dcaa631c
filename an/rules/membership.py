"""C09: configuration changes and the member table."""
from ..rule import *
from ..engine import subterms
from .replication import RepBase, PEERS, elem_of, empty

SAVEC = 'state_mgr::save_config'


def idx_of(t, c):
    """index i when t is the element i of container c itself"""
    if t is not None and t[0] == 'app' and t[1] == 'elem' and t[2] == c:
        return t[4]
    return None


class ConfBase(RepBase):
    def conf(self):
        return self.enumv('log_val_type', 'conf')

    def is_conf(self, eng, st, e):
        return decided(st, 'eq', self.vtype(eng, st, e), self.conf())

    def cfg(self, eng, st):
        return self.g(eng, st, 'config_')

    def servers(self, o):
        f = self.getf('cluster_config', 'get_servers')
        return ('sub', o, f)

    def leader(self, eng, st):
        return decided(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader')) is True

    def idle(self, eng, st):
        return decided(st, 'eq', self.g(eng, st, 'config_changing_'), C(0)) is True

    def sid(self, eng, st, e):
        return eng.peek(st, e, self.getf('srv_config', 'get_id'))

    def cidx(self, eng, st, c):
        return nn(eng.peek(st, c, self.getf('cluster_config', 'get_log_idx')))

    def has(self, eng, st, c, k):
        return decided(st, 'eq', ('app', 'has', c, eng.cver(st, c), st.facts.canon(k)), C(1))

    def content(self, eng, st, x):
        """the object whose serialised form an entry built here carries"""
        b = eng.peek(st, x, self.getf('log_entry', 'get_buf'))
        return st.store.get((b, '#ser'))


class ConfStart(ConfBase):
    name = 'conf-start'
    doc = 'a configuration entry made by this server is appended only by a leader with no change pending, carries its own ' \
          'index and the index of the configuration it replaces, and lists the members of the present configuration plus or ' \
          'minus one server (the first leader may log the initial configuration)'
    must_see = ('made', 'candidate')
    # meta: (armed: pending mark was seen clear, initial, list built so far)
    # list: (conf, base, plus, drop, odd)
    meta0 = (0, 0, (None, 0, 0, None, 0))
    hard = frozenset(('config_changing_',))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor', 'thread')

    def lst(self, eng, st, c):
        """list state when c is the member list of a configuration made here"""
        if c[0] == 'sub' and c[1][0] == 'new' and c[1][1] == NS + 'cluster_config' and \
                c[2] == self.getf('cluster_config', 'get_servers') and c[1][2:] and not isinstance(c[1][2], tuple):
            l = st.meta[2]
            return (c[1],) + l[1:] if l[0] in (c[1], None) else (c[1], 0, 0, None, 0)
        return None

    def setl(self, st, l):
        st.meta = (st.meta[0], st.meta[1], l)

    def iter_end(self, eng, st, k):
        if not eng.quiet:
            self.norm(eng, st)

    def norm(self, eng, st):
        """members known to have the id of the one that is left out"""
        src = self.servers(self.cfg(eng, st))
        f = self.getf('srv_config', 'get_id')
        for op, a, b in list(st.facts.lits()):
            if op != 'eq':
                continue
            for x, y in ((a, b), (b, a)):
                if x[0] != 'fld' or x[2] != f:
                    continue
                k = idx_of(x[1], src)
                if k is None or ('pt', 'kept', src, k) in st.cov:
                    continue
                ks = {s for s in subterms(k) if s[0] == 'sym'}
                if any(s in ks for s in subterms(y)):
                    continue
                l = st.meta[2]
                if l[3] is not None and l[3] != y:
                    self.setl(st, l[:3] + (('twice',), l[4]))
                else:
                    self.setl(st, l[:3] + (y, l[4]))
                eng.cover(st, 'kept', src, k)

    def event(self, eng, st, ev):
        if ev.kind == 'ctor' and ev.name == NS + 'cluster_config':
            return
        if ev.kind == 'write' and ev.name == 'config_changing_' and ev.args[0] == THIS:
            if decided(st, 'eq', ev.args[2], C(0)) is True:
                st.meta = (1, st.meta[1], st.meta[2])
        elif ev.kind == 'write' and ev.name == 'conf_to_add_' and ev.args[0] == THIS and \
                decided(st, 'eq', ev.args[1], NULL) is not True:
            self.ob('candidate', ev.site)
            i = self.sid(eng, st, ev.args[1])
            if self.has(eng, st, PEERS, i) is not False or decided(st, 'eq', i, self.g(eng, st, 'id_')) is not False:
                self.bad('duplicate', ev.site, 'a server that may already be a member is accepted as a new one', st, ev.stack)
            if not self.leader(eng, st):
                self.bad('addrole', ev.site, 'a server that is not the leader starts adding a member', st, ev.stack)
        elif ev.kind == 'write' and ev.name == self.getf('cluster_config', 'get_log_idx') and ev.args[0] == self.cfg(eng, st):
            if decided(st, 'eq', ev.args[2], C(0)) is True:
                st.meta = (st.meta[0], 1, st.meta[2])
        elif ev.kind == 'cont' and ev.args:
            l = self.lst(eng, st, ev.args[0])
            if l is None:
                return
            src = self.servers(self.cfg(eng, st))
            conf, base, plus, drop, odd = l
            if ev.name in ('insertrange', 'assign') and not base:
                full = False
                if ev.name == 'insertrange' and len(ev.args) == 4:
                    a, b = ev.args[2], ev.args[3]
                    full = a[0] == 'it' and b[0] == 'it' and a[1] == src and b[1] == src and a[3] == C(0) and \
                        decided(st, 'eq', b[3], eng.csize(st, src)) is True
                elif len(ev.args) == 2:
                    full = ev.args[1] == src or st.store.get((ev.args[1], '#copyof'), (0, 0))[1] == src
                self.setl(st, (conf, 1 if full else 0, plus, drop, odd or (0 if full else 1)))
            elif ev.name == 'push':
                i = idx_of(ev.args[1], src)
                if i is not None:
                    twice = ('pt', 'kept', src, i) in st.cov
                    eng.cover(st, 'kept', src, i)
                    self.setl(st, (conf, base, min(plus + (1 if twice else 0), 2), drop, odd))
                else:
                    self.setl(st, (conf, base, min(plus + 1, 2), drop, odd))
            elif ev.name in ('deref', 'operator[]', 'at', 'front', 'back'):
                pass
            elif ev.name == 'erase':
                self.setl(st, (conf, base, plus, ('erased',) if drop != ('erased',) else ('twice',), odd))
            else:
                self.setl(st, (conf, base, plus, drop, 1))
        elif ev.kind == 'call' and ev.name in ('log_store::append', 'log_store::write_at'):
            x = ev.args[-1]
            if x[0] != 'new' or self.is_conf(eng, st, x) is False:
                return
            self.made(eng, st, ev, x)

    def made(self, eng, st, ev, x):
        self.ob('made', ev.site)
        armed, init, l = st.meta
        if not self.leader(eng, st):
            self.bad('role', ev.site, 'a configuration entry is made by a server that may not be the leader', st, ev.stack)
        c = self.content(eng, st, x)
        cfg = self.cfg(eng, st)
        at = ev.args[1] if ev.name.endswith('write_at') else self.nxt(eng, st)
        if c is None:
            self.bad('content', ev.site, 'the content of a configuration entry is not a configuration made here', st, ev.stack)
            return
        if not holds(st, 'eq', self.cidx(eng, st, c), at):
            self.bad('index', ev.site, 'a configuration entry stored at %s says it is at %s'
                     % (show(at), show(self.cidx(eng, st, c))), st, ev.stack)
        if c == cfg:
            if not init:
                self.bad('relog', ev.site, 'the present configuration is logged again although it is in the log already', st, ev.stack)
            return
        if not armed and not self.idle(eng, st):
            self.bad('pending', ev.site, 'a configuration change is started while an earlier one may be pending', st, ev.stack)
        p = eng.peek(st, c, self.getf('cluster_config', 'get_prev_log_idx'))
        if not holds(st, 'eq', p, self.cidx(eng, st, cfg)):
            self.bad('prev', ev.site, 'the new configuration does not name the present one as its predecessor (%s)' % show(p), st, ev.stack)
        if l[0] != c and (l[0] is not None or l[3] is None):
            l = (c, 0, 0, None, 0)
        if l[4]:
            return
        src = self.servers(cfg)
        full = l[1] or eng.covered_all(st, 'kept', src)
        if l[1]:
            one = l[2] + (l[3] == ('erased',)) == 1
        else:       # every member kept or dropped for one id
            one = l[2] + (l[3] is not None) <= 1 and l[3] != ('twice',)
        if not full:
            self.bad('members', ev.site, 'the new configuration may lack a member of the present one other than the one removed', st, ev.stack)
        elif not one:
            self.bad('one', ev.site, 'the new configuration does not differ from the present one by exactly one server', st, ev.stack)


class PendingMark(ConfBase):
    name = 'conf-pending'
    doc = 'the pending mark is set by the end of every step (and before the next entry is stored) that put a configuration ' \
          'entry into the log; it is cleared only for a configuration entry that is being committed or overwritten, never ' \
          'after a new one was stored; the constructor sets it unless every uncommitted entry is of another kind'
    must_see = ('stored', 'cleared')
    # meta: (pending entry | None, a configuration was stored, something was stored)
    meta0 = (None, 0, 0)
    cost = 3
    hard = frozenset(('config_changing_',))

    def wants(self, en):
        return en.kind[0] not in ('dtor', 'ctor')

    def begin(self, en):
        self.bg = en.kind[0] == 'thread'

    def split(self, eng, st):
        if st.meta[0]:
            return (self.is_conf(eng, st, st.meta[0]),)
        return ()

    def client_entry(self, x):
        return self.en.name in ('request:client_request', 'api:append_entries') and x[0] == 'app' and x[1] == 'elem' and \
            x[2][0] == 'sub' and x[2][2] == self.getf('req_msg', 'log_entries')

    def settle(self, eng, st, site, stack=()):
        p, conf, n = st.meta
        if p:
            if self.is_conf(eng, st, p) is not False:
                conf = 1
                if decided(st, 'eq', self.g(eng, st, 'config_changing_'), C(1)) is not True:
                    self.bad('unmarked', site, 'a configuration entry gets into the log without the pending mark', st, stack)
            st.meta = (None, conf, n)

    def iter_end(self, eng, st, k):
        if not eng.quiet and st.meta[0] != eng.headmeta[0]:
            self.settle(eng, st, self.endsite())

    def norm(self, eng, st):
        p, conf, n = st.meta
        if p and self.is_conf(eng, st, p) is False:
            st.meta = (None, conf, n)

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in ('log_store::append', 'log_store::write_at'):
            self.ob('stored', ev.site)
            self.settle(eng, st, ev.site, ev.stack)
            x = ev.args[-1]
            if self.is_conf(eng, st, x) is not False and not self.client_entry(x):
                st.meta = (x, st.meta[1], 1)
            else:
                st.meta = (None, st.meta[1], 1)
        elif ev.kind == 'write' and ev.name == 'config_changing_' and ev.args[0] == THIS and \
                decided(st, 'eq', ev.args[1], C(1)) is not True:
            self.ob('cleared', ev.site)
            lo = self.log(eng, st)
            if self.bg:
                e = ('app', 'entry_at', lo, lver(st, lo), st.facts.canon(self.g(eng, st, 'sm_commit_index_')))
                if self.is_conf(eng, st, e) is not True:
                    self.bad('clearbg', ev.site, 'the pending mark is cleared although no configuration entry is being committed', st, ev.stack)
                return
            p, conf, n = st.meta
            if p is not None or conf or n:
                self.bad('clearlate', ev.site, 'the pending mark may be cleared for a configuration entry that was just stored', st, ev.stack)
                return
            vf = self.getf('log_entry', 'get_val_type')
            ok = False
            for op, a, b in st.facts.lits():
                for t in (a, b):
                    for x, _ in lin(t)[1]:
                        if x[0] == 'fld' and x[2] == vf and x[1][0] == 'app' and x[1][1] == 'entry_at' and x[1][2] == lo and \
                                decided(st, 'eq', x, self.conf()) is True:
                            ok = True
            if not ok or self.en.name != 'request:append_entries_request':
                self.bad('clear', ev.site, 'the pending mark is cleared although no configuration entry is committed or overwritten', st, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] == 'done':
            self.settle(eng, st, self.endsite())


class PendingAtStart(ConfBase):
    name = 'conf-pending-start'
    doc = 'the constructor sets the pending mark, or every entry of the log from the first one not applied (or the log\'s ' \
          'start) to its end is known not to be a configuration'
    must_see = ('looked',)
    hard = frozenset(('config_changing_', 'seenlo', 'seenhi', 'seenok'))
    LO, HI, OK = ('#g', 'seenlo'), ('#g', 'seenhi'), ('#g', 'seenok')
    NONE = ('sym', 'none')
    meta0 = 0
    split_exits = True
    peel = True

    def wants(self, en):
        return en.kind[0] == 'ctor'

    def prepare(self, eng, st, en):
        st.set(self.LO, self.NONE)
        st.set(self.HI, self.NONE)
        st.set(self.OK, C(0))

    def mark(self, st, i):
        lo, hi = st.store[self.LO], st.store[self.HI]
        if lo == self.NONE:
            st.set(self.LO, i)
            st.set(self.HI, add(i, C(1)))
        elif holds(st, 'eq', i, hi):
            st.set(self.HI, add(i, C(1)))
        elif holds(st, 'eq', add(i, C(1)), lo):
            st.set(self.LO, i)

    def step(self, eng, st):
        vf = self.getf('log_entry', 'get_val_type')
        lo = self.log(eng, st)
        idx = set()
        for op, x, y in st.facts.lits():
            for q in (x, y):
                for w, _ in lin(q)[1]:
                    if w[0] == 'fld' and w[2] == vf and w[1][0] == 'app' and w[1][1] == 'entry_at' and w[1][2] == lo and \
                            decided(st, 'eq', w, self.conf()) is False:
                        idx.add(w[1][4])
        for i in sorted(idx, key=repr):
            self.mark(st, i)

    def norm(self, eng, st):
        if st.store.get(self.OK) == C(0) and self.clear(eng, st):
            st.set(self.OK, C(1))
        if st.store.get(self.OK) == C(1) and st.store[self.LO] != self.NONE:
            st.set(self.LO, self.NONE)
            st.set(self.HI, self.NONE)

    def clear(self, eng, st):
        if not self.started:
            return False
        lo, hi = st.store[self.LO], st.store[self.HI]
        sm, nx, sa = add(self.g(eng, st, 'sm_commit_index_'), C(1)), self.nxt(eng, st), self.start(eng, st)
        if holds(st, 'le', nx, sm) or holds(st, 'le', nx, sa):
            return True
        return lo != self.NONE and (holds(st, 'le', lo, sm) or holds(st, 'le', lo, sa)) and holds(st, 'le', nx, hi)

    started = False

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name.startswith('log_store::'):
            self.started = True
            if ev.name == 'log_store::entry_at':
                self.ob('looked', ev.site)
        elif ev.kind == 'ctor' and ev.name.startswith('std::thread') and not st.meta:
            st.meta = 1
            if decided(st, 'eq', self.g(eng, st, 'config_changing_'), C(1)) is True:
                return
            if st.store[self.OK] != C(1) and not self.clear(eng, st):
                self.bad('overlooked', ev.site, 'an uncommitted configuration entry in the log may be overlooked at start', st, ev.stack)


class Effective(ConfBase):
    name = 'conf-effective'
    doc = 'the member table, the configuration and the saved configuration change only when a configuration entry is ' \
          'committed, an invitation to join is taken, a snapshot was applied, the server takes itself out after a leave ' \
          'request, or the only other member of a two-member cluster is unreachable for removal'
    must_see = ('peers', 'config', 'saved')
    meta0 = 0
    cost = 2
    hard = frozenset(('config_changing_',))

    def wants(self, en):
        return en.kind[0] not in ('dtor',)

    def begin(self, en):
        self.k = en.kind

    def split(self, eng, st):
        return ()

    def entry(self, eng, st):
        lo = self.log(eng, st)
        return ('app', 'entry_at', lo, lver(st, lo), st.facts.canon(self.g(eng, st, 'sm_commit_index_')))

    def committed(self, eng, st):
        return self.k[0] == 'thread' and self.is_conf(eng, st, self.entry(eng, st)) is True

    def from_entry(self, eng, st, v):
        """v is the configuration carried by the entry being committed"""
        b = eng.peek(st, self.entry(eng, st), self.getf('log_entry', 'get_buf'))
        return v[0] == 'new' and v[1] == NS + 'cluster_config' and isinstance(v[2], tuple) and v[2][0] == 'of' and v[2][1] == b

    def context(self, eng, st, what, ev):
        if self.k[0] == 'ctor':
            return True
        if self.committed(eng, st):
            return True
        if self.en.name == 'request:join_cluster_request':
            return decided(st, 'eq', self.g(eng, st, 'catching_up_'), C(1)) is True
        if self.en.name == 'request:install_snapshot_request':
            return st.meta == 'applied'
        if self.k[0] == 'timer':
            return what in ('members', 'saved') and decided(st, 'eq', self.g(eng, st, 'steps_to_down_'), C(0)) is True and \
                decided(st, 'eq', ('fld', THIS, 'steps_to_down_'), C(1)) is True
        if self.en.name == 'ex_resp_handler_:error':
            return what == 'peers' and self.leader(eng, st) and self.idle(eng, st) and \
                decided(st, 'eq', ('app', 'size', PEERS, C(0)), C(1)) is True
        return False

    def event(self, eng, st, ev):
        if ev.kind == 'result' and ev.name == 'state_machine::apply_snapshot':
            return
        if ev.kind == 'call' and ev.name == 'state_machine::apply_snapshot':
            st.meta = 'applied'
            return
        what = None
        if ev.kind == 'cont' and ev.args and ev.name not in ('deref', 'operator[]', 'at', 'front', 'back'):
            if ev.args[0] == PEERS:
                what = 'peers'
            elif ev.args[0] == self.servers(self.cfg(eng, st)):
                what = 'members'
        elif ev.kind == 'write' and ev.name == 'config_' and ev.args[0] == THIS:
            what = 'config'
        elif ev.kind == 'call' and ev.name == SAVEC:
            what = 'saved'
        if what is None:
            return
        self.ob(what, ev.site)
        if not self.context(eng, st, what, ev):
            self.bad('early-' + what, ev.site, {
                'peers': 'the member table changes although no configuration has been committed',
                'members': 'the present configuration is edited although no change has been committed',
                'config': 'another configuration takes effect although it has not been committed',
                'saved': 'a configuration is saved that has not been committed'}[what], st, ev.stack)
            return
        if self.k[0] == 'thread':
            if what == 'config':
                if not self.from_entry(eng, st, ev.args[1]):
                    self.bad('other', ev.site, 'the configuration taking effect is not the one committed', st, ev.stack)
                elif not holds(st, 'lt', self.cidx(eng, st, ev.args[2]), self.cidx(eng, st, ev.args[1])):
                    self.bad('older', ev.site, 'an older configuration may replace a newer one', st, ev.stack)
            if what == 'saved' and not self.from_entry(eng, st, ev.args[1]):
                self.bad('othersaved', ev.site, 'the configuration saved is not the one committed', st, ev.stack)


class ConfCommit(Effective):
    name = 'conf-commit'
    doc = 'once the applied position has passed a configuration entry, its configuration has been saved, the pending mark ' \
          'is clear, and it is in force unless the present one is newer'
    must_see = ('passed',)
    # meta: None | (entry, saved)
    meta0 = None
    hard = frozenset(('config_changing_', 'config_', 'sm_commit_index_'))

    def wants(self, en):
        return en.kind[0] == 'thread'

    def split(self, eng, st):
        if st.meta:
            return (self.is_conf(eng, st, st.meta[0]),)
        return ()

    def settle(self, eng, st, site, stack=()):
        if not st.meta:
            return
        e, saved = st.meta
        st.meta = None
        if self.is_conf(eng, st, e) is False:
            return
        if self.is_conf(eng, st, e) is None:
            self.bad('unseen', site, 'the applied position passes an entry without looking whether it is a configuration', st, stack)
            return
        self.ob('passed', site)
        if not saved:
            self.bad('unsaved', site, 'a committed configuration is not saved', st, stack)
        if decided(st, 'eq', self.g(eng, st, 'config_changing_'), C(0)) is not True:
            self.bad('stuck', site, 'the pending mark stays set after the configuration committed', st, stack)
        cfg = self.cfg(eng, st)
        b = eng.peek(st, e, self.getf('log_entry', 'get_buf'))
        mine = [v for v in self.confs_of(st, b)]
        if cfg[0] == 'new' and isinstance(cfg[2], tuple) and cfg[2][0] == 'of' and cfg[2][1] == b:
            return
        for v in mine:
            if holds(st, 'le', self.cidx(eng, st, v), self.cidx(eng, st, cfg)):
                return
        self.bad('ignored', site, 'a committed configuration newer than the present one does not take effect', st, stack)

    def confs_of(self, st, b):
        out = set()
        for op, x, y in st.facts.lits():
            for t in (x, y):
                for w in subterms(t):
                    if w[0] == 'new' and w[1] == NS + 'cluster_config' and isinstance(w[2], tuple) and w[2][0] == 'of' and w[2][1] == b:
                        out.add(w)
        return out

    def begin(self, en):
        self.k = en.kind
        self.own = set()

    def loop_in(self, eng, st, k):
        if st.meta is None:
            self.own.add(k)

    def iter_end(self, eng, st, k):
        # the end of an iteration of the applier's own loops, not of one inside the treatment of an entry
        if not eng.quiet and st.meta and k in self.own:
            self.settle(eng, st, self.endsite())

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'sm_commit_index_' and ev.args[0] == THIS:
            self.settle(eng, st, ev.site, ev.stack)
            lo = self.log(eng, st)
            st.meta = (('app', 'entry_at', lo, lver(st, lo), st.facts.canon(ev.args[1])), 0)
        elif ev.kind == 'call' and ev.name == SAVEC and st.meta and self.from_entry(eng, st, ev.args[1]):
            st.meta = (st.meta[0], 1)

    def final(self, eng, st):
        if st.ctl[0] == 'done':
            self.settle(eng, st, self.endsite())



class TableFollows(ConfBase):
    name = 'conf-members'
    doc = 'when a configuration takes effect, every server in it other than this one is in the member table or is inserted, ' \
          'and every member not in it is taken out (directly or through lists that are worked off completely)'
    must_see = ('takes effect', 'start')
    # meta: (lists of servers to insert, lists of ids to take out, checked)
    meta0 = (frozenset(), frozenset(), 0)
    cost = 2

    def wants(self, en):
        return en.kind[0] in ('ctor', 'thread') or en.name in ('request:join_cluster_request', 'request:install_snapshot_request')

    def servers_of(self, t):
        """(list, index) when t is an element of some configuration's member list"""
        if t[0] == 'app' and t[1] == 'elem' and t[2][0] == 'sub' and t[2][2] == self.getf('cluster_config', 'get_servers'):
            return t[2], t[4]
        return None

    def elem(self, t):
        return (t[2], t[4]) if t[0] == 'app' and t[1] == 'elem' else None

    def norm(self, eng, st):
        idf = self.getf('srv_config', 'get_id')
        me = self.g(eng, st, 'id_')
        new = set()
        for op, a, b in st.facts.lits():
            if op != 'eq':
                continue
            for x, y in ((a, b), (b, a)):
                if x[0] == 'app' and x[1] == 'has' and x[2] == PEERS and y[0] == 'c':
                    key = x[4]
                    if y == C(1) and key[0] == 'fld' and key[2] == idf and self.servers_of(key[1]):
                        new.add(('in',) + self.servers_of(key[1]))
                    e = self.elem(key)
                    if y == C(0) and e:
                        new.add(('gone',) + e)
                if x[0] == 'fld' and x[2] == idf and self.servers_of(x[1]):
                    if y == me:
                        new.add(('in',) + self.servers_of(x[1]))
                    if y[0] == 'fld' and y[2] == 'first' and self.elem(y[1]) and self.elem(y[1])[0] == PEERS:
                        new.add(('out',) + self.elem(y[1]))
        for tag, c, i in sorted(new, key=repr):
            if ('pt', tag, c, i) not in st.cov:
                eng.cover(st, tag, c, i)

    def iter_end(self, eng, st, k):
        if not eng.quiet:
            self.norm(eng, st)

    def event(self, eng, st, ev):
        ins, out, done = st.meta
        idf = self.getf('srv_config', 'get_id')
        if ev.kind == 'cont' and ev.args:
            c = ev.args[0]
            if ev.name in ('push', 'insert') and c != PEERS:
                x = ev.args[1]
                s = self.servers_of(x)
                if s and c[0] == 'new':
                    eng.cover(st, 'in', *s)
                    st.meta = (ins | {c}, out, done)
                elif x[0] == 'fld' and x[2] == 'first' and self.elem(x[1]) and self.elem(x[1])[0] == PEERS and c[0] == 'new':
                    eng.cover(st, 'out', *self.elem(x[1]))
                    st.meta = (ins, out | {c}, done)
            elif ev.name == 'insert' and c == PEERS:
                k = ev.args[1]
                if k[0] == 'fld' and k[2] == idf and self.elem(k[1]):
                    e = self.elem(k[1])
                    eng.cover(st, 'in' if self.servers_of(k[1]) else 'ins', *e)
                if decided(st, 'eq', k, self.g(eng, st, 'id_')) is True:
                    self.bad('self', ev.site, 'the server enters itself as a peer', st, ev.stack)
            elif ev.name == 'erase' and c == PEERS and len(ev.args) > 1:
                a = ev.args[1]
                if a[0] == 'it':
                    if a[3][0] == 'app' and a[3][1] == 'pos':
                        e = self.elem(a[3][4])
                        if e:
                            eng.cover(st, 'gone', *e)
                    else:
                        eng.cover(st, 'out', PEERS, a[3])
                else:
                    e = self.elem(a)
                    if e:
                        eng.cover(st, 'gone', *e)
        elif ev.kind == 'write' and ev.name == 'config_' and ev.args[0] == THIS and self.en.kind[0] != 'ctor':
            self.ob('takes effect', ev.site)
            s = self.servers(ev.args[1])
            if not eng.covered_all(st, 'in', s):
                self.bad('notadded', ev.site, 'a server of the new configuration may not become a peer', st, ev.stack)
            if not eng.covered_all(st, 'out', PEERS) and not empty(eng, st, PEERS):
                self.bad('notremoved', ev.site, 'a member that is not in the new configuration may stay a peer', st, ev.stack)
            for v in ins:
                if not eng.covered_all(st, 'ins', v) and not empty(eng, st, v):
                    self.bad('lost', ev.site, 'a server of the new configuration may not become a peer', st, ev.stack)
            for v in out:
                if not eng.covered_all(st, 'gone', v) and not empty(eng, st, v):
                    self.bad('kept', ev.site, 'a member that is not in the new configuration may stay a peer', st, ev.stack)
        elif ev.kind == 'ctor' and ev.name.startswith('std::thread') and not done:
            self.ob('start', ev.site)
            st.meta = (ins, out, 1)
            if not eng.covered_all(st, 'in', self.servers(self.cfg(eng, st))):
                self.bad('start', ev.site, 'a server of the stored configuration may not become a peer at start', st, ev.stack)


RULES = [TableFollows, ConfStart, PendingMark, PendingAtStart, Effective, ConfCommit]
