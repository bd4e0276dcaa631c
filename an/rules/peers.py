"""C27: one request at a time per peer, and replication that never stalls."""
from ..rule import *
from ..raft import lam_entry, uncapture, run_entry, Entry, add_lit
from ..engine import subterms
from .timers import StepRule, PEERS, LOCK

SEND = 'rpc_client::send'


def completions(prog, cb, ens):
    """the callbacks given to the network client, completed with a response or with an error"""
    found = {}

    class H(RaftHooks):
        def record(self, eng, st, ev):
            if ev.kind == 'call' and ev.name == SEND:
                for a in ev.args:
                    if a is not None and a[0] == 'lam':
                        found.setdefault(a[1], a)
    for en in ens:
        if en.kind[0] in ('hb', 'timer'):
            run_entry(prog, H(), en)
    if not found:
        raise AnalysisBroken('nothing is sent with a completion callback')
    out = []
    for k, a in sorted(found.items()):
        lam = uncapture(a, 'rpc')
        lam = lam[:3] + (('sym', 'rpc:this'),)
        out.append(lam_entry(prog, 'rpc completion with a response', lam, (RESP, NULL), (('ne', RESP, NULL),), kind=('rpc', 'ok')))
        out.append(lam_entry(prog, 'rpc completion with an error', lam, (NULL, ERR), (('ne', ERR, NULL),), kind=('rpc', 'err')))
    return out


def slotted(rule):
    return rule.enumv('msg_type', 'append_entries_request'), rule.enumv('msg_type', 'install_snapshot_request')


class SlotRelease(Rule):
    name = 'slot-released'
    doc = 'the completion of an append or snapshot request, with response or error, releases the slot of its peer before the ' \
          'handler of the response runs, and restores the heartbeat pace on success or slows it down on failure'
    must_see = ('released', 'pace')
    hard = frozenset(('busy_flag_', 'current_hb_interval_'))
    # meta: (slot released, handler ran)
    meta0 = (0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        return completions(prog, cb, ens)

    def other(self, st):
        """the request is known to be neither an append nor a snapshot request"""
        A, I = slotted(self)
        ts = set()
        for op, a, b in st.facts.lits():
            for x, y in ((a, b), (b, a)):
                for t in (x, y):
                    if t[0] == 'lin':
                        ts.update(q for q, _ in t[2])
                    elif t[0] != 'c':
                        ts.add(t)
        return any(decided(st, 'eq', t, A) is False and decided(st, 'eq', t, I) is False
                   for t in ts if t[0] == 'fld' and t[2] == self.getf('req_msg', 'get_type') or t[0] == 'sym')

    def split(self, eng, st):
        return (st.meta, self.other(st))

    def event(self, eng, st, ev):
        f, h = st.meta
        if ev.kind == 'write' and ev.name == 'busy_flag_':
            if h:
                self.bad('late', ev.site, 'the slot is written after the response was handled, when the next request may hold it', st, ev.stack)
            st.meta = (1 if holds(st, 'eq', ev.args[1], C(0)) else 0, h)
        elif ev.kind == 'write' and ev.name == 'current_hb_interval_':
            self.ob('pace', ev.site)
        elif ev.kind == 'invoke' and ev.args and ev.args[0][0] == 'fld':
            st.meta = (f, 1)
            if not f and not self.other(st):
                self.bad('held', ev.site, 'the response is handled while its request may still hold the slot of the peer', st, ev.stack)

    def pace(self, eng, st, o, site):
        v, v0 = eng.peek(st, o, 'current_hb_interval_'), ('fld', o, 'current_hb_interval_')
        mx, hb = eng.peek(st, o, 'max_hb_interval_'), eng.peek(st, o, 'hb_interval_')
        if self.en.kind[1] == 'err':
            if v != v0 and not holds(st, 'le', v, mx):
                self.bad('fast', site, 'a failure may slow the heartbeat down beyond the maximum', st)
        elif not holds(st, 'eq', v, hb):
            self.bad('slow', site, 'a successful exchange may not restore the normal heartbeat pace', st)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        f, h = st.meta
        os = [k[0] for k in st.store if k[1] == 'current_hb_interval_']
        if self.en.kind[1] == 'ok' and not os:
            self.bad('nopace', site, 'a successful exchange may not restore the normal heartbeat pace', st)
        for o in os:
            self.pace(eng, st, o, site)
        if f or self.other(st):
            self.ob('released', site)
            return
        self.bad('kept', site, 'a completed append or snapshot request may keep the slot of its peer', st)


class SlotTaken(StepRule):
    name = 'slot-taken'
    doc = 'an append or snapshot request is sent to a peer only after its slot was taken in the same step; a slot taken is ' \
          'used or given back, and is not given back while its request is outstanding, except at the start of a leadership'
    must_see = ('send',)
    hard = frozenset(('role_',))
    R0 = ('fld', THIS, 'role_')

    def wants(self, en):
        # a retry repeats requests to servers that join or leave
        return en.kind[0] not in ('ctor', 'dtor', 'retry')

    # meta: (role at the start of the step, peers whose slot is taken and unused)
    def meta_for(self, en):
        return (self.R0, frozenset())

    def opened(self, eng, st, m):
        return (self.role(eng, st), m[1]) if self.en.kind[0] == 'thread' else m

    def split(self, eng, st):
        return (self.leader(eng, st, st.meta[0]),) + tuple(sorted(repr((x, o is None or decided(st, 'eq', o, C(0))))
                                                                  for x, o in st.meta[1]))

    def joining(self, eng, st, x):
        j = self.g(eng, st, 'srv_to_join_')
        return decided(st, 'eq', x, j) is True or decided(st, 'eq', x, ('fld', THIS, 'srv_to_join_')) is True or \
            x[0] == 'sym' and x != PEER

    def on(self, eng, st, ev):
        r0, taken = st.meta
        if ev.kind == 'cas' and ev.name == 'busy_flag_':
            if ev.args[3] == C(1):
                st.meta = (r0, frozenset(t for t in taken if t[0] != ev.args[0]) | {(ev.args[0], None)})
        elif ev.kind == 'write' and ev.name == 'busy_flag_':
            x = ev.args[0]
            mine = frozenset(t for t in taken if t[0] == x)
            if not holds(st, 'eq', ev.args[1], C(0)):
                if not mine:
                    # an exchange: the slot is taken where the old value turns out to be false
                    st.meta = (r0, taken | {(x, st.facts.canon(ev.args[2]))})
                return
            if mine:
                st.meta = (r0, taken - mine)
            elif x[0] != 'new' and not (self.leader(eng, st) is True and self.leader(eng, st, r0) is not True):
                self.bad('given', ev.site, 'the slot of a peer is given back while its request may be outstanding', st, ev.stack)
        elif ev.kind == 'call' and ev.name == SEND and ev.args[0][0] == 'fld':
            x = ev.args[0][1]
            t = eng.peek(st, ev.args[1], self.getf('req_msg', 'get_type'))
            A, I = slotted(self)
            if decided(st, 'eq', t, A) is False and decided(st, 'eq', t, I) is False:
                return
            if self.joining(eng, st, x):
                return
            self.ob('send', ev.site)
            mine = frozenset(t for t in taken if t[0] == x and (t[1] is None or holds(st, 'eq', t[1], C(0))))
            if mine:
                st.meta = (r0, taken - mine)
            else:
                self.bad('send', ev.site, 'an append or snapshot request is sent to a peer without its slot being taken', st, ev.stack)

    def leak(self, eng, st, site, stack=(), outer=frozenset()):
        r0, taken = st.meta
        if any(t[1] is None or holds(st, 'eq', t[1], C(0)) for t in taken - outer):
            self.bad('leak', site, 'the slot of a peer is taken but no request is sent, which blocks the peer for good', st, stack)
            st.meta = (r0, taken & outer)

    def iter_end(self, eng, st, k):
        # what was taken before the loop is still to be used after it
        outer = eng.headmeta[1]
        if not eng.quiet:
            self.leak(eng, st, self.endsite(), outer=outer)
        st.meta = (st.meta[0], st.meta[1] & outer)

    def closed(self, eng, st, site, stack=()):
        self.leak(eng, st, site, stack)

    def final(self, eng, st):
        if st.ctl[0] == 'done':
            self.leak(eng, st, self.endsite())


class Announce(StepRule):
    name = 'commit-announced'
    doc = 'when a leader\'s commit point moves, every peer is sent a request or marked as still to be told'
    must_see = ('advance',)
    hard = frozenset(('quick_commit_idx_', 'role_'))
    R0 = ('fld', THIS, 'role_')
    # meta: commit point moved while leader
    meta0 = 0

    def wants(self, en):
        return en.name == 'resp_handler_:append_entries_response' or en.name == 'api:append_entries'

    def split(self, eng, st):
        return (st.meta, self.leader(eng, st))

    def norm(self, eng, st):
        if decided(st, 'eq', eng.csize(st, PEERS), C(0)) is True:
            st.cov = st.cov | {('all', 'told', PEERS)}

    def idx(self, x):
        if x[0] == 'fld' and x[2] == 'second' and x[1][0] == 'app' and x[1][1] == 'elem' and x[1][2] == PEERS:
            return x[1][4]
        return None

    def on(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'quick_commit_idx_' and ev.args[0] == THIS:
            if decided(st, 'le', ev.args[1], ev.args[2]) is not True and self.leader(eng, st) is not False:
                self.ob('advance', ev.site)
                st.meta = 1
                st.cov = frozenset(c for c in st.cov if c[1] != 'told')
                self.norm(eng, st)
        elif ev.kind == 'call' and ev.name == SEND and ev.args[0][0] == 'fld':
            i = self.idx(ev.args[0][1])
            t = eng.peek(st, ev.args[1], self.getf('req_msg', 'get_type'))
            if i is not None and decided(st, 'eq', t, self.enumv('msg_type', 'vote_request')) is not True:
                eng.cover(st, 'told', PEERS, i)
        elif ev.kind == 'write' and ev.name == 'pending_commit_flag_' and holds(st, 'ne', ev.args[1], C(0)):
            i = self.idx(ev.args[0])
            if i is not None:
                eng.cover(st, 'told', PEERS, i)

    def closed(self, eng, st, site, stack=()):
        if st.meta and self.leader(eng, st) is not False and not eng.covered_all(st, 'told', PEERS):
            self.bad('untold', site, 'the commit point of a leader moves and some peer is neither told nor marked to be told', st, stack)


class CatchUp(StepRule):
    name = 'catch-up'
    doc = 'after a response, a leader tries to send the next request to a peer that refused, is behind, is in the middle of a ' \
          'snapshot or has a commit to be told; a refusal moves the next index to try down'
    must_see = ('again', 'refused')
    hard = frozenset(('role_', 'next_log_idx_'))
    # meta: peers a request was attempted for since the last change, pending mark cleared and not followed up
    meta0 = (frozenset(), 0, 0)

    def wants(self, en):
        return en.name in ('resp_handler_:append_entries_response', 'resp_handler_:install_snapshot_response')

    def src(self, eng, st):
        k = eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
        return ('fld', ('app', 'elem', PEERS, C(0), ('app', 'pos', PEERS, C(0), k)), 'second'), ('app', 'has', PEERS, C(0), k)

    def split(self, eng, st):
        P, has = self.src(eng, st)
        nx = nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_next_idx')))
        due = st.meta[1]
        return (st.meta, due and due != 1 and decided(st, 'eq', due, C(0)), decided(st, 'eq', eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted')), C(0)),
                decided(st, 'eq', ('fld', P, 'pending_commit_flag_'), C(0)), decided(st, 'eq', ('fld', P, 'pending_commit_flag_'), C(1)), decided(st, 'le', self.nxt(eng, st), nx),
                decided(st, 'eq', ('fld', P, 'snp_sync_ctx_'), NULL), self.leader(eng, st),
                decided(st, 'eq', ('fld', P, 'next_log_idx_'), C(0)))

    def same(self, st, x, P):
        return x == P or decided(st, 'eq', x, P) is True

    def on(self, eng, st, ev):
        tried, due, moved = st.meta
        P, has = self.src(eng, st)
        if ev.name == 'busy_flag_' and (ev.kind == 'cas' or ev.kind == 'write' and holds(st, 'ne', ev.args[1], C(0))):
            if self.same(st, ev.args[0], P):
                st.meta = (tried | {P}, 0, moved)
        elif ev.kind == 'write' and ev.name == 'next_log_idx_' and self.same(st, ev.args[0], P) and not tried:
            if not holds(st, 'eq', ev.args[1], ev.args[2]):
                st.meta = (tried, due, 1 if holds(st, 'lt', ev.args[1], nn(ev.args[2])) else 0)
        elif ev.kind == 'cas' and ev.name == 'pending_commit_flag_' or ev.kind == 'write' and ev.name == 'pending_commit_flag_':
            if self.same(st, ev.args[0], P) and (ev.kind == 'cas' and ev.args[3] == C(1) or
                                                 ev.kind == 'write' and holds(st, 'eq', ev.args[1], C(0))):
                if ev.kind == 'cas' or due != 1:
                    st.meta = (tried, 1 if ev.kind == 'cas' else st.facts.canon(ev.args[2]), moved)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        tried, due, moved = st.meta
        site = self.endsite()
        P, has = self.src(eng, st)
        T = nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_term')))
        t0 = ('fld', STATE, self.getf('srv_state', 'get_term'))
        if holds(st, 'eq', has, C(0)) or decided(st, 'eq', T, t0) is not True:
            return
        acc = eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted'))
        refused = decided(st, 'eq', acc, C(0))
        nx = nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_next_idx')))
        if 'append' in self.en.name and refused is True:
            self.ob('refused', site)
            if not (moved or holds(st, 'eq', nn(('fld', P, 'next_log_idx_')), C(0))):
                self.bad('same', site, 'after a refusal the same index may be tried again', st)
        if self.leader(eng, st) is False:
            return
        if due and due != 1 and decided(st, 'eq', due, C(0)) is True:
            due = 0
        if tried:
            self.ob('again', site)
            if not due:
                return
        if due:
            self.bad('forgotten', site, 'the mark that a commit is still to be told is cleared without a request to the peer', st)
        if refused is not False:
            self.bad('refused', site, 'a leader may not try again after a peer refused', st)
            return
        if 'append' in self.en.name:
            if decided(st, 'le', self.nxt(eng, st), nx) is not True:
                self.bad('behind', site, 'a leader may not send on to a peer that is behind', st)
            pc = ('fld', P, 'pending_commit_flag_')
            if decided(st, 'eq', pc, C(0)) is not True and decided(st, 'eq', pc, C(1)) is not False:
                self.bad('commit', site, 'a peer that is still to be told of a commit may not be told when it becomes free', st)
        elif holds(st, 'eq', ('fld', P, 'snp_sync_ctx_'), NULL):
            return
        elif decided(st, 'ne' if False else 'eq', eng.peek(st, P, 'snp_sync_ctx_'), NULL) is not True:
            self.bad('snapshot', site, 'a leader may not send the next block of a snapshot after one was acknowledged', st)



class PeerPace(Rule):
    name = 'peer-pace'
    doc = 'a new peer starts at the configured heartbeat interval and backoff, and its slowest pace is the interval itself or ' \
          'at most the shortest election timeout'
    must_see = ('pace',)
    needs_raft = False
    plain = True
    RP = NS + 'raft_params'

    @classmethod
    def entries(cls, prog, cb, ens):
        f = prog.method(NS + 'peer', 'peer')
        return [Entry('new peer', f, THIS, tuple(('sym', 'arg_%d' % i) for i, _ in enumerate(f['params'])), kind=('ctor',))]

    def split(self, eng, st):
        return frozenset(st.facts.lits())

    def params(self, eng, st):
        os = set()
        for (o, *_), v in st.store.items():
            for x in subterms(v) if isinstance(v, tuple) else ():
                if x[0] == 'fld' and x[2] in ('heart_beat_interval_', 'election_timeout_lower_bound_'):
                    os.add(x[1])
        return os

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        self.ob('pace', site)
        os = self.params(eng, st)
        if len(os) != 1:
            self.bad('source', site, 'the heartbeat interval of a new peer is not the one in the parameters of the server', st)
            return
        o = os.pop()
        hb, lo = ('fld', o, 'heart_beat_interval_'), ('fld', o, 'election_timeout_lower_bound_')
        g = lambda n: eng.peek(st, THIS, n)
        for n, w in (('hb_interval_', hb), ('current_hb_interval_', hb), ('rpc_backoff_', ('fld', o, 'rpc_failure_backoff_'))):
            if not holds(st, 'eq', g(n), w):
                self.bad(n, site, '%s of a new peer is not as configured' % n, st)
        mx = g('max_hb_interval_')
        # intervals are not negative
        for x in set(subterms(mx)):
            if x[0] == 'app' and x[1] == 'div' and hb in x:
                st.facts = st.facts and add_lit(st.facts, ('le', C(0), x))
        if not holds(st, 'le', mx, hb) and not holds(st, 'le', mx, lo):
            self.bad('max', site, 'a heartbeat slowed down may be slower than the shortest election timeout: %s' % show(mx), st)


RULES = [SlotRelease, SlotTaken, Announce, CatchUp, PeerPace]
