"""C05-C08: commit point, append handling, application, announcements."""
from ..rule import *
from .election import VoteBase
from .dispatch import subterms

PEERS = ('sub', THIS, 'peers_')
SPACE = ('space', 'log')
ESPACE = ('space', 'entries')
REENTRY = ('request:join_cluster_request',)
FOLLOW = ('request:append_entries_request', 'request:sync_log_request', 'request:join_cluster_request',
          'request:install_snapshot_request')


def elem_of(t, c):
    """index of the container element a term belongs to (elem(c,ver,i) or a part of it)"""
    while t:
        if t[0] == 'app' and t[1] == 'elem' and t[2] == c:
            return t[4]
        if t[0] in ('fld', 'sub'):
            t = t[1]
        else:
            return None
    return None


def empty(eng, st, c, limit=64):
    """the path facts leave no other size than zero for c"""
    n = st.facts.canon(eng.csize(st, c))
    if n[0] == 'c':
        return n[1] == 0
    return not any(feasible(st.facts, {n: k}) for k in range(1, limit))


class RepBase(VoteBase):
    def quick(self, eng, st):
        return nn(self.g(eng, st, 'quick_commit_idx_'))

    def rq(self, eng, st, g):
        return nn(eng.peek(st, REQ, self.getf('req_msg', g)))

    def rs(self, eng, st, g):
        return eng.peek(st, RESP, self.getf('resp_msg', g))

    def npeers(self, eng, st):
        return eng.csize(st, PEERS)

    def vtype(self, eng, st, e):
        return eng.peek(st, e, self.getf('log_entry', 'get_val_type'))

    def app(self):
        return self.enumv('log_val_type', 'app_log')

    def etype_not_app(self, eng, st, e):
        return decided(st, 'eq', self.vtype(eng, st, e), self.app()) is False

    def etype_app(self, eng, st, e):
        return holds(st, 'eq', self.vtype(eng, st, e), self.app())

    def part(self, eng, st, e, cls, getter):
        return eng.peek(st, e, self.getf(cls, getter))


class CommitForward(RepBase):
    name = 'commit-monotone'
    doc = 'every write of the commit point is not below the old value, except on joining a cluster or when a newer ' \
          'snapshot (newer than everything applied) has just been installed'
    must_see = ('write',)

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'quick_commit_idx_' and ev.args[0] == THIS:
            self.ob('write', ev.site)
            if self.en.name in REENTRY:
                return
            if holds(st, 'le', ev.args[2], ev.args[1]):
                return
            if self.en.name == 'request:install_snapshot_request' and \
                    holds(st, 'lt', nn(('fld', THIS, 'sm_commit_index_')), ev.args[1]):
                return
            self.bad('back', ev.site, 'the commit point may move backwards (from %s to %s)'
                     % (show(ev.args[2]), show(ev.args[1])), st, ev.stack)


class CommitQuorum(RepBase):
    name = 'commit-quorum'
    doc = 'outside follower-side handlers the commit point is only set to the k-th of the sorted stored indices of the ' \
          'server and every peer (each contributed once), k leaving a strict majority for 1 to 64 members, or to the ' \
          'last own index by a leader without peers'
    must_see = ('alone', 'quorum')
    LIMIT = 64

    # meta: (containers with own index, (container, index) of peers, same within this iteration)
    meta0 = (frozenset(), frozenset(), frozenset())

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor') and en.name not in FOLLOW

    def iteration(self, eng, st):
        if st.meta[2]:
            st.meta = (st.meta[0], st.meta[1], frozenset())

    def contribution(self, eng, st, c, v, ev):
        own, peers, it = st.meta
        if v == C(0):
            return
        i = elem_of(v, PEERS)
        if i is not None:
            m = v[0] == 'fld' and v[2] == self.getf('peer', 'get_matched_idx')
            if not m:
                self.bad('other', ev.site, 'the quorum is computed from %s instead of the index a peer is known to store'
                         % show(v), st, ev.stack)
            if (c, i) in it or any(x == c and j != i for x, j in peers):
                self.bad('peertwice', ev.site, 'a peer may be counted twice for the quorum', st, ev.stack)
            st.meta = (own, peers | {(c, i)}, it | {(c, i)})
            return
        if decided(st, 'le', v, sub(self.nxt(eng, st), C(1))) is True:
            if c in own:
                self.bad('owntwice', ev.site, 'the own log may be counted twice for the quorum', st, ev.stack)
            st.meta = (own | {c}, peers, it)
            return
        for x, j in peers:
            pass
        self.bad('other', ev.site, 'the quorum is computed from %s, which is neither the own last index nor an index a '
                 'peer is known to store' % show(v), st, ev.stack)
        st.meta = (own, peers, it)

    def watched(self, c):
        return c[0] == 'new' and ('vector<unsigned long>' in str(c[1]) or 'list<unsigned long>' in str(c[1])
                                  or 'deque<unsigned long>' in str(c[1]) or 'set<unsigned long' in str(c[1]))

    def event(self, eng, st, ev):
        if ev.kind == 'cont' and ev.args and ev.name in ('set', 'push', 'insert') and self.watched(ev.args[0]):
            c = ev.args[0]
            v = ev.args[2] if ev.name == 'set' else ev.args[1]
            self.contribution(eng, st, c, v, ev)
        elif ev.kind == 'write' and ev.name == 'quick_commit_idx_' and ev.args[0] == THIS:
            v = ev.args[1]
            n = self.npeers(eng, st)
            last = sub(self.nxt(eng, st), C(1))
            if holds(st, 'eq', n, C(0)) and holds(st, 'le', v, last):
                self.ob('alone', ev.site)
                if not holds(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader')):
                    self.bad('notleader', ev.site, 'a server that may not be leader commits on its own', st, ev.stack)
                return
            self.ob('quorum', ev.site)
            why = self.quorum(eng, st, v, n)
            if why:
                self.bad('majority', ev.site, 'the commit point is set to an index that a majority is not known to '
                         'store: ' + why, st, ev.stack)

    def quorum(self, eng, st, v, n):
        if not (v[0] == 'app' and v[1] == 'elem'):
            i = elem_of(v, PEERS)
            return '%s is not chosen by a majority' % show(v)
        c, idx = v[2], v[4]
        srt = st.store.get((c, '#sorted'))
        if srt is None or srt[1] not in ('asc', 'desc'):
            return '%s is not sorted' % show(c)
        if srt[2] != NULL and decided(st, 'eq', srt[2], idx) is not True:
            return 'only the element at %s is in its sorted place' % show(srt[2])
        own, peers, _ = st.meta
        if not any(x == c for x in own) and not any(x == c for x, _ in peers):
            return 'the contents of %s are unknown' % show(c)
        size = eng.csize(st, c)
        extra = 0 if c in own else 1
        fn = st.facts.canon(n)
        for k in range(0, self.LIMIT):
            if fn[0] == 'c' and fn[1] != k:
                continue
            env = {n: k, fn: k} if fn[0] != 'c' else {n: k}
            if not feasible(st.facts, env):
                continue
            i, N = ev_term(idx, env), ev_term(size, env)
            if i is None:
                return 'the index %s does not depend on the number of members alone' % show(idx)
            if N is None:
                N = ev_term(st.facts.canon(size), env)
            if srt[1] == 'desc':
                ge = i + 1
            else:
                if N is None:
                    return 'the number of collected indices is unknown'
                ge = N - i
            if not any(x == c for x, _ in peers) and k > 0:
                ge = 1
            if 2 * (ge + extra) <= k + 1 or (N is not None and i >= N) or i < 0:
                return 'with %d members only %d are known to store it' % (k + 1, ge + extra)
        return None


class CommitOwnTerm(RepBase):
    name = 'commit-own-term'
    doc = 'an index committed by counting acknowledgements holds an entry of the leader\'s current term'
    must_see = ('count',)

    def wants(self, en):
        return en.name == 'resp_handler_:append_entries_response'

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'quick_commit_idx_' and ev.args[0] == THIS:
            v = ev.args[1]
            self.ob('count', ev.site)
            lo = self.log(eng, st)
            T = self.term(eng, st)
            ver = lver(st, lo)
            tf = self.getf('log_entry', 'get_term')
            for t in (('app', 'term_at', lo, ver, v), eng.peek(st, ('app', 'entry_at', lo, ver, v), tf)):
                if holds(st, 'eq', t, T):
                    return
            self.bad('older-term', ev.site, 'an entry of an earlier term may be committed by counting acknowledgements',
                     st, ev.stack)


class MatchIndex(RepBase):
    name = 'match-index'
    doc = 'what a member is known to store is set only from an accepted append response of that member (at most the ' \
          'acknowledged index), from a snapshot it acknowledged in full, or to zero; becoming leader zeroes it for every peer'
    must_see = ('acknowledged', 'snapshot', 'reset')
    hard = frozenset(('role_',))
    meta0 = 0

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def split(self, eng, st):
        return (decided(st, 'eq', self.rs(eng, st, 'get_accepted'), C(0)),)

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == self.getf('peer', 'get_matched_idx'):
            o, v = ev.args[0], ev.args[1]
            i = elem_of(o, PEERS)
            if v == C(0):
                if i is not None:
                    self.ob('reset', ev.site)
                    eng.cover(st, 'zero', PEERS, i)
                return
            if o[0] == 'new' or decided(st, 'eq', v, ev.args[2]) is True:
                return
            if i is None:
                if decided(st, 'eq', o, self.g(eng, st, 'srv_to_join_')) is True or o == ('fld', THIS, 'srv_to_join_'):
                    return
            src = self.rs(eng, st, 'get_src')
            if self.en.name == 'resp_handler_:append_entries_response':
                self.ob('acknowledged', ev.site)
                if not holds(st, 'ne', self.rs(eng, st, 'get_accepted'), C(0)):
                    self.bad('refused', ev.site, 'a refused append is taken as stored', st, ev.stack)
                if not holds(st, 'le', v, sub(self.rs(eng, st, 'get_next_idx'), C(1))):
                    self.bad('beyond', ev.site, 'more than the acknowledged index is taken as stored (%s)' % show(v), st, ev.stack)
                if i is None or not self.is_src(st, i, src):
                    self.bad('whose', ev.site, 'an acknowledgement is credited to another member than its sender', st, ev.stack)
                return
            if self.en.name == 'resp_handler_:install_snapshot_response':
                self.ob('snapshot', ev.site)
                if not holds(st, 'ne', self.rs(eng, st, 'get_accepted'), C(0)):
                    self.bad('snprefused', ev.site, 'a refused snapshot block is taken as stored', st, ev.stack)
                if i is None or not self.is_src(st, i, src):
                    self.bad('snpwhose', ev.site, 'an acknowledgement is credited to another member than its sender', st, ev.stack)
                if v[0] in ('fld', 'lin', 'app', 'sym') and not (v[0] == 'fld' and v[2] == self.getf('snapshot', 'get_last_log_idx')) and \
                        not any(x[0] == 'fld' and x[2] == self.getf('snapshot', 'get_last_log_idx') and holds(st, 'le', v, x)
                                for x in self.snapterms(st)):
                    self.bad('snpbeyond', ev.site, 'what is taken as stored after a snapshot is not the last index of that snapshot (%s)' % show(v), st, ev.stack)
                return
            self.bad('unfounded', ev.site, 'what a member is known to store changes without its acknowledgement', st, ev.stack)
        elif ev.kind == 'write' and ev.name == 'role_' and ev.args[0] == THIS:
            if decided(st, 'eq', ev.args[1], self.enumv('srv_role', 'leader')) is not False:
                st.meta = 1

    def snapterms(self, st):
        for op, a, b in st.facts.lits():
            for t in (a, b):
                for x in subterms(t):
                    if x[0] == 'fld':
                        yield x

    def is_src(self, st, i, src):
        return i[0] == 'app' and i[1] == 'pos' and i[2] == PEERS and decided(st, 'eq', i[4], src) is True

    def final(self, eng, st):
        if st.meta and st.ctl[0] in ('done', 'exc'):
            self.ob('reset', self.endsite())
            if not eng.covered_all(st, 'zero', PEERS) and not empty(eng, st, PEERS):
                self.bad('kept', self.endsite(), 'a new leader keeps what it knew of a peer from an earlier leadership', st)


# ------------------------------------------------------------------ C06
class Prefix(RepBase):
    def req_prefix(self, eng, st):
        """the request's preceding position matches the own log (as it was on arrival)"""
        if ('ghost', 'prefix') in st.cov:
            return True
        lli, llt = self.rq(eng, st, 'get_last_log_idx'), self.rq(eng, st, 'get_last_log_term')
        if holds(st, 'eq', lli, C(0)):
            return True
        lo = self.log(eng, st)
        if not holds(st, 'lt', lli, ('fld', lo, '#next')):
            return False
        tf = self.getf('log_entry', 'get_term')
        if holds(st, 'le', ('fld', lo, '#start'), lli):
            for t in (('app', 'term_at', lo, C(0), lli), ('fld', ('app', 'entry_at', lo, C(0), lli), tf)):
                if holds(st, 'eq', t, llt):
                    return True
        sm = self.g(eng, st, 'state_machine_')
        for snp in (('app', 'last_snapshot', sm, C(0)), ('fld', THIS, 'last_snapshot_')):
            if holds(st, 'eq', ('fld', snp, self.getf('snapshot', 'get_last_log_idx')), lli) and \
                    holds(st, 'eq', ('fld', snp, self.getf('snapshot', 'get_last_log_term')), llt):
                return True
        return False

    def reqents(self):
        return ('sub', REQ, self.entf())

    def entf(self):
        return self.getf('req_msg', 'log_entries')

    def index_of(self, st, x):
        if x is not None and x[0] == 'app' and x[1] == 'elem' and x[2] == ('sub', REQ, self.entf()):
            return x[4]
        return None


class AppendMatch(Prefix):
    name = 'append-prefix'
    doc = 'entries of an append request enter the log only if the request has the current term and its preceding entry ' \
          'matches, each at its own index, replacing only entries of a different term; acceptance means all are stored, ' \
          'and neither the acknowledgement nor the commit point exceeds what the request verified'
    must_see = ('store', 'accepted', 'commit')
    hard = frozenset(('accepted_', 'next_idx_', 'term_', 'upto'))
    meta0 = 0
    cost = 5
    split_exits = True
    peel = True

    def ghosts(self, eng, st):
        return ('prefix',) if self.req_prefix(eng, st) else ()

    def wants(self, en):
        return en.name == 'request:append_entries_request'

    def split(self, eng, st):
        return (self.req_prefix(eng, st), decided(st, 'eq', self.rq(eng, st, 'get_term'), self.term(eng, st)))

    def guard(self, eng, st, site, what, stack=()):
        if not holds(st, 'eq', self.rq(eng, st, 'get_term'), self.term(eng, st)):
            self.bad(what + '-term', site, 'an append request that may be from another term is %s' % what, st, stack)
        if not self.req_prefix(eng, st):
            self.bad(what + '-prefix', site, 'an append request is %s although the preceding entry may not match' % what, st, stack)

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in ('log_store::append', 'log_store::write_at'):
            self.ob('store', ev.site)
            lo = self.log(eng, st)
            self.guard(eng, st, ev.site, 'stored', ev.stack)
            over = ev.name.endswith('write_at')
            x = ev.args[-1]
            at = ev.args[1] if over else self.nxt(eng, st)
            j = self.index_of(st, x)
            lli = self.rq(eng, st, 'get_last_log_idx')
            if j is None:
                self.bad('foreign', ev.site, 'something else than an entry of the request is stored', st, ev.stack)
                return
            want = add(add(lli, C(1)), j)
            if over:
                ok = holds(st, 'eq', at, want)
            else:
                ok = holds(st, 'eq', at, want) or (st.meta and holds(st, 'le', want, at))
                # after an overwrite the store has dropped what followed, so the end of the log is where it was cut
            if not ok:
                self.bad('index', ev.site, 'an entry of the request is stored at index %s instead of %s' % (show(at), show(want)),
                         st, ev.stack)
            if over and not st.meta:
                et = eng.peek(st, x, self.getf('log_entry', 'get_term'))
                tf = self.getf('log_entry', 'get_term')
                v = lver(st, lo)
                if not any(holds(st, 'ne', t, et) for t in (('app', 'term_at', lo, v, at),
                                                            eng.peek(st, ('app', 'entry_at', lo, v, at), tf))):
                    self.bad('same', ev.site, 'an own entry may be replaced although its term is the same', st, ev.stack)
            if over:
                st.meta = 1
        elif ev.kind == 'write' and ev.name == 'quick_commit_idx_' and ev.args[0] == THIS:
            self.ob('commit', ev.site)
            v = ev.args[1]
            self.guard(eng, st, ev.site, 'committed', ev.stack)
            lim = add(self.rq(eng, st, 'get_last_log_idx'), eng.csize(st, self.reqents()))
            if not holds(st, 'le', v, lim):
                self.bad('overcommit', ev.site, 'the follower may commit %s, beyond the last entry the request verified' % show(v),
                         st, ev.stack)
            if not holds(st, 'le', v, self.rq(eng, st, 'get_commit_idx')):
                self.bad('uncommitted', ev.site, 'the follower may commit %s, beyond the leader\'s commit point' % show(v), st, ev.stack)

    # ghost: how many entries of the request, from its first, are in the log
    UPTO = ('#g', 'upto')

    def prepare(self, eng, st, en):
        st.set(self.UPTO, C(0))

    def ghost(self, eng, st, kind, name, args):
        if kind == 'call' and name in ('log_store::append', 'log_store::write_at'):
            j = self.index_of(st, args[-1])
            g = st.store[self.UPTO]
            if j is not None and holds(st, 'eq', j, g):
                st.set(self.UPTO, add(g, C(1)))

    def norm(self, eng, st):
        n = eng.csize(st, self.reqents())
        g = st.store[self.UPTO]
        if g != n and g != C(0) and holds(st, 'le', n, g):
            st.set(self.UPTO, n)
            st.lab = ()

    def step(self, eng, st):
        lo = self.log(eng, st)
        if lver(st, lo) != C(0):
            return
        g = st.store[self.UPTO]
        at = add(add(self.rq(eng, st, 'get_last_log_idx'), C(1)), g)
        tf = self.getf('log_entry', 'get_term')
        e = eng.peek(st, ('app', 'elem', self.reqents(), C(0), g), tf)
        if not holds(st, 'lt', at, ('fld', lo, '#next')):
            return
        for t in (('app', 'term_at', lo, C(0), at), ('fld', ('app', 'entry_at', lo, C(0), at), tf)):
            if holds(st, 'eq', t, e):
                st.set(self.UPTO, add(g, C(1)))
                return

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        r = st.ctl[1]
        acc = eng.peek(st, r, self.getf('resp_msg', 'get_accepted'))
        if holds(st, 'eq', acc, C(0)) or holds(st, 'eq', r, NULL):
            return
        site = self.endsite()
        self.ob('accepted', site)
        self.guard(eng, st, site, 'accepted')
        n = eng.csize(st, self.reqents())
        lli = self.rq(eng, st, 'get_last_log_idx')
        ni = eng.peek(st, r, self.getf('resp_msg', 'get_next_idx'))
        if not holds(st, 'le', ni, add(add(lli, n), C(1))):
            self.bad('ack', site, 'the acknowledged next index %s exceeds what the request verified' % show(ni), st)
        if not holds(st, 'le', n, st.store[self.UPTO]):
            self.bad('missing', site, 'an append request is accepted although an entry of it may not be in the log', st)


# ------------------------------------------------------------------ C07
class Apply(RepBase):
    name = 'apply-order'
    doc = 'the applied position advances by one at a time, only to indices known committed and present; each application ' \
          'entry passed is given to the state machine exactly once with its own index and content, others never'
    must_see = ('advance', 'apply')
    hard = frozenset(('sm_commit_index_', 'quick_commit_idx_'))
    meta0 = None

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def begin(self, en):
        self.bg = en.kind[0] == 'thread'

    def ent(self, eng, st, v):
        lo = self.log(eng, st)
        return ('app', 'entry_at', lo, lver(st, lo), st.facts.canon(v))

    def split(self, eng, st):
        if st.meta and st.meta[0] == 'inc':
            return (decided(st, 'eq', self.vtype(eng, st, st.meta[2]), self.app()),)
        return ()

    def known(self, eng, st, v):
        return holds(st, 'le', v, self.quick(eng, st)) and holds(st, 'le', v, sub(self.nxt(eng, st), C(1)))

    def settle(self, eng, st, site, stack=()):
        """an entry the applied position has passed must have been given to the state machine or not be one for it"""
        if st.meta and st.meta[0] == 'inc' and not self.etype_not_app(eng, st, st.meta[2]):
            self.bad('skipped', site, 'an application entry may be passed over without being given to the state machine', st, stack)
        if st.meta and st.meta[0] == 'app':
            self.bad('again', site, 'an application entry may be given to the state machine again', st, stack)
        st.meta = None

    def iter_end(self, eng, st, k):
        if st.meta and self.bg and not eng.quiet and st.meta != eng.headmeta:
            self.settle(eng, st, self.endsite())

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'sm_commit_index_' and ev.args[0] == THIS:
            new, old = ev.args[1], ev.args[2]
            self.ob('advance', ev.site)
            if not self.bg:
                if self.en.name == 'request:join_cluster_request' and new == C(0):
                    return
                if self.en.name == 'request:install_snapshot_request':
                    return
                self.bad('who', ev.site, 'the applied position is changed outside the applier', st, ev.stack)
                return
            if st.meta and st.meta[0] == 'app':
                if not holds(st, 'eq', new, st.meta[1]):
                    self.bad('jump', ev.site, 'the applied position moves to %s after entry %s was applied' % (show(new), show(st.meta[1])), st, ev.stack)
                st.meta = None
                return
            self.settle(eng, st, ev.site, ev.stack)
            if not holds(st, 'eq', new, add(old, C(1))):
                self.bad('step', ev.site, 'the applied position moves from %s to %s' % (show(old), show(new)), st, ev.stack)
            if not self.known(eng, st, new):
                self.bad('early', ev.site, 'an entry may be applied that is not known committed and stored', st, ev.stack)
            v = st.facts.canon(new)
            st.meta = ('inc', v, self.ent(eng, st, v))
        elif ev.kind == 'call' and ev.name == 'state_machine::commit':
            self.ob('apply', ev.site)
            i = ev.args[1]
            if not self.bg:
                self.bad('who', ev.site, 'the state machine is given an entry outside the applier', st, ev.stack)
                return
            e = None
            if st.meta and st.meta[0] == 'inc':
                e = st.meta[2]
                if not holds(st, 'eq', i, st.meta[1]):
                    self.bad('index', ev.site, 'entry %s is applied with index %s' % (show(st.meta[1]), show(i)), st, ev.stack)
                st.meta = None
            elif st.meta is None:
                sm = self.g(eng, st, 'sm_commit_index_')
                if not holds(st, 'eq', i, add(sm, C(1))):
                    self.bad('repeat', ev.site, 'an entry is applied that is not the next one (%s after %s)' % (show(i), show(sm)), st, ev.stack)
                if not self.known(eng, st, i):
                    self.bad('early', ev.site, 'an entry may be applied that is not known committed and stored', st, ev.stack)
                e = self.ent(eng, st, i)
                st.meta = ('app', st.facts.canon(i))
            else:
                self.bad('repeat', ev.site, 'an entry may be applied twice', st, ev.stack)
                return
            if not self.etype_app(eng, st, e):
                self.bad('kind', ev.site, 'an entry that may not be an application entry is given to the state machine', st, ev.stack)
            b = eng.peek(st, e, self.getf('log_entry', 'get_buf')) if False else None
            if not self.content(eng, st, ev.args[2], e):
                self.bad('content', ev.site, 'the state machine is given other content than the entry at %s' % show(i), st, ev.stack)

    def content(self, eng, st, b, e):
        return b is not None and (decided(st, 'eq', b, eng.peek(st, e, self.getf('log_entry', 'get_buf'))) is True)

    def final(self, eng, st):
        if st.ctl[0] in ('done', 'diverge'):
            if self.bg:
                self.settle(eng, st, self.endsite())


# ------------------------------------------------------------------ C08
class Announce(RepBase):
    name = 'announce'
    doc = 'every application entry added to the log is followed by pre_commit with its index and content before the next ' \
          'change or the end of the step; others are not announced; before an own entry is replaced, every application ' \
          'entry from there to the end of the log has been rolled back'
    must_see = ('added', 'announced', 'replaced', 'rolledback')
    # meta: (pending (entry, index) | None, rolled back, replaced)
    meta0 = (None, 0, 0)
    cost = 4
    split_exits = True
    peel = True

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor', 'thread')

    def split(self, eng, st):
        if st.meta[0]:
            return (decided(st, 'eq', self.vtype(eng, st, st.meta[0][0]), self.app()),)
        return ()

    def client_entry(self, x):
        return self.en.name in ('request:client_request', 'api:append_entries') and x[0] == 'app' and x[1] == 'elem' and \
            x[2][0] == 'sub' and x[2][2] == self.getf('req_msg', 'log_entries')

    def settle(self, eng, st, site, stack=()):
        p, rb, rp = st.meta
        if p:
            if not self.etype_not_app(eng, st, p[0]):
                self.bad('silent', site, 'an application entry added to the log is not announced to the state machine', st, stack)
            st.meta = (None, rb, rp)

    # ghost: the indices [lo, hi) need no (further) rollback
    LO, HI, NONE = ('#g', 'rblo'), ('#g', 'rbhi'), ('sym', 'none')
    hard = frozenset(('rblo', 'rbhi'))

    def prepare(self, eng, st, en):
        st.set(self.LO, self.NONE)
        st.set(self.HI, self.NONE)

    def norm(self, eng, st):
        if st.meta[2] and st.store[self.LO] != self.NONE and st.meta[0] is None:
            st.set(self.LO, self.NONE)
            st.set(self.HI, self.NONE)

    def mark(self, st, i):
        lo, hi = st.store[self.LO], st.store[self.HI]
        if lo == self.NONE:
            st.set(self.LO, i)
            st.set(self.HI, add(i, C(1)))
        elif holds(st, 'eq', i, hi):
            st.set(self.HI, add(i, C(1)))
        elif holds(st, 'eq', add(i, C(1)), lo):
            st.set(self.LO, i)

    def ghost(self, eng, st, kind, name, args):
        if kind == 'call' and name == 'state_machine::rollback':
            self.mark(st, st.facts.canon(args[1]))

    def step(self, eng, st):
        lo = self.log(eng, st)
        if lver(st, lo) != C(0):
            return
        a, b = st.store[self.LO], st.store[self.HI]
        vf = self.getf('log_entry', 'get_val_type')
        idx = set()
        for op, x, y in st.facts.lits():
            for q in (x, y):
                for w, _ in lin(q)[1]:
                    if w[0] == 'fld' and w[2] == vf and w[1][0] == 'app' and w[1][1] == 'entry_at' and w[1][3] == C(0):
                        idx.add(w[1][4])
        for i in sorted(idx, key=repr):
            e = ('fld', ('app', 'entry_at', lo, C(0), i), vf)
            if decided(st, 'eq', e, self.app()) is False:
                self.mark(st, i)

    def iter_end(self, eng, st, k):
        if not eng.quiet and st.meta[0] != eng.headmeta[0]:
            self.settle(eng, st, self.endsite())

    def event(self, eng, st, ev):
        if ev.kind != 'call':
            return
        if ev.name in ('log_store::append', 'log_store::write_at'):
            over = ev.name.endswith('write_at')
            self.settle(eng, st, ev.site, ev.stack)
            p, rb, rp = st.meta
            at = ev.args[1] if over else self.nxt(eng, st)
            self.ob('added', ev.site)
            if over:
                self.ob('replaced', ev.site)
                if not rp:
                    lo = self.log(eng, st)
                    a, b = st.store[self.LO], st.store[self.HI]
                    if not (a != self.NONE and holds(st, 'le', a, at) and holds(st, 'le', ('fld', lo, '#next'), b)):
                        self.bad('norollback', ev.site, 'an application entry may be dropped from the log without having been rolled '
                                 'back', st, ev.stack)
                rp = 1
            x = ev.args[-1]
            st.meta = (None if self.etype_not_app(eng, st, x) else (x, st.facts.canon(at)), rb, rp)
        elif ev.name == 'state_machine::pre_commit':
            self.ob('announced', ev.site)
            p, rb, rp = st.meta
            if p is None:
                self.bad('unstored', ev.site, 'an entry is announced that was not just stored', st, ev.stack)
                return
            x, at = p
            st.meta = (None, rb, rp)
            if not holds(st, 'eq', ev.args[1], at):
                self.bad('index', ev.site, 'an entry stored at %s is announced with index %s' % (show(at), show(ev.args[1])), st, ev.stack)
            if not self.etype_app(eng, st, x) and not self.client_entry(x):
                self.bad('kind', ev.site, 'an entry that may not be an application entry is announced', st, ev.stack)
            if decided(st, 'eq', ev.args[2], eng.peek(st, x, self.getf('log_entry', 'get_buf'))) is not True:
                self.bad('content', ev.site, 'the announcement does not carry the content of the stored entry', st, ev.stack)
        elif ev.name == 'state_machine::rollback':
            self.ob('rolledback', ev.site)
            i = ev.args[1]
            lo = self.log(eng, st)
            e = ('app', 'entry_at', lo, C(0), st.facts.canon(i))
            p, rb, rp = st.meta
            if rp:
                self.bad('late', ev.site, 'a rollback is announced after the entry may have been replaced', st, ev.stack)
            if not self.etype_app(eng, st, e):
                self.bad('rbkind', ev.site, 'an entry that may not be an application entry is rolled back', st, ev.stack)
            if decided(st, 'eq', ev.args[2], eng.peek(st, e, self.getf('log_entry', 'get_buf'))) is not True:
                self.bad('rbcontent', ev.site, 'the rollback does not carry the content of the entry at its index', st, ev.stack)
            st.meta = (p, 1, rp)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        self.settle(eng, st, self.endsite())
        p, rb, rp = st.meta
        if rb and not rp:
            self.bad('kept', self.endsite(), 'an entry is rolled back but stays in the log', st)


RULES = [CommitForward, CommitQuorum, CommitOwnTerm, MatchIndex, AppendMatch, Apply, Announce]
