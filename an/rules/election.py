"""C01-C04, C12: terms, votes and elections."""
from ..rule import *

SEND = 'rpc_client::send'
SAVE = 'state_mgr::save_state'
ANY_VOTE = ('request:vote_request',)


class VoteBase(Rule):
    def is_state(self, eng, st, o):
        return decided(st, 'eq', o, self.state(eng, st)) is True

    def tv(self, eng, st):
        return self.term(eng, st), self.vote(eng, st)

    def own_last_terms(self, eng, st):
        """terms that denote the term of the server's own last log entry in st"""
        lo, nx, sa = self.log(eng, st), self.nxt(eng, st), self.start(eng, st)
        last = sub(nx, C(1))
        out = []
        ver = lver(st, lo)
        tf = self.getf('log_entry', 'get_term')
        if holds(st, 'le', sa, last):
            out.append(nn(('app', 'term_at', lo, ver, last)))
            for k in (('app', 'last_entry', lo, ver), ('app', 'entry_at', lo, ver, last)):
                out.append(nn(eng.peek(st, k, tf)))
        else:
            for snp in (('app', 'last_snapshot', self.g(eng, st, 'state_machine_'),
                         st.store.get((self.g(eng, st, 'state_machine_'), '#smv'), C(0))),
                        self.g(eng, st, 'last_snapshot_')):
                if holds(st, 'eq', eng.peek(st, snp, self.getf('snapshot', 'get_last_log_idx')), last):
                    out.append(nn(eng.peek(st, snp, self.getf('snapshot', 'get_last_log_term'))))
        if holds(st, 'eq', nx, C(1)):
            out.append(C(0))
        return [st.facts.canon(x) for x in out]

    def all_last_terms(self, eng, st):
        lo, nx = self.log(eng, st), self.nxt(eng, st)
        last = sub(nx, C(1))
        ver = lver(st, lo)
        tf = self.getf('log_entry', 'get_term')
        r = [('app', 'term_at', lo, ver, last), eng.peek(st, ('app', 'last_entry', lo, ver), tf),
             eng.peek(st, ('app', 'entry_at', lo, ver, last), tf)]
        sm = self.g(eng, st, 'state_machine_')
        for snp in (('app', 'last_snapshot', sm, st.store.get((sm, '#smv'), C(0))), self.g(eng, st, 'last_snapshot_')):
            r.append(eng.peek(st, snp, self.getf('snapshot', 'get_last_log_term')))
        r.append(C(0))
        return [nn(x) if x[0] != 'c' else x for x in r]

    def req(self, eng, st, g):
        return nn(eng.peek(st, REQ, self.getf('req_msg', g)))

    def log_lits(self, eng, st):
        llt, lli = self.req(eng, st, 'get_last_log_term'), self.req(eng, st, 'get_last_log_idx')
        last = sub(self.nxt(eng, st), C(1))
        out = [decided(st, 'le', last, lli), decided(st, 'le', self.start(eng, st), last)]
        for m in self.all_last_terms(eng, st):
            out.append(decided(st, 'lt', m, llt))
            out.append(decided(st, 'eq', m, llt))
        return tuple(out)

    def up_to_date(self, eng, st):
        llt, lli = self.req(eng, st, 'get_last_log_term'), self.req(eng, st, 'get_last_log_idx')
        last = sub(self.nxt(eng, st), C(1))
        for m in self.own_last_terms(eng, st):
            if holds(st, 'lt', m, llt) or holds(st, 'eq', m, llt) and holds(st, 'le', last, lli):
                return True
        return False


class VoteGrant(VoteBase):
    name = 'vote-grant'
    doc = 'an accepted vote response implies: request term = own term, vote recorded for the requester, and the ' \
          'requester\'s log is at least as up to date as the own log (snapshot included)'
    must_see = ('granted',)

    hard = frozenset(('accepted_', 'voted_for_', 'term_'))

    def wants(self, en):
        return en.name == 'request:vote_request'

    def split(self, eng, st):
        T, v = self.tv(eng, st)
        return (decided(st, 'eq', self.req(eng, st, 'get_term'), T), decided(st, 'eq', v, C(-1)),
                decided(st, 'eq', v, eng.peek(st, REQ, self.getf('req_msg', 'get_src')))) + self.log_lits(eng, st)

    def event(self, eng, st, ev):
        return None

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        r = st.ctl[1]
        acc = eng.peek(st, r, self.getf('resp_msg', 'get_accepted'))
        if holds(st, 'eq', acc, C(0)) or holds(st, 'eq', r, NULL):
            return
        site = self.endsite()
        self.ob('granted', site)
        T, v = self.tv(eng, st)
        src = eng.peek(st, REQ, self.getf('req_msg', 'get_src'))
        if not holds(st, 'eq', self.req(eng, st, 'get_term'), T):
            self.bad('term', site, 'a vote is granted although the request may carry another term than the server', st)
        if not holds(st, 'eq', v, src):
            self.bad('recorded', site, 'a vote is granted without being recorded for the requester', st)
        if not self.up_to_date(eng, st):
            self.bad('log', site, 'a vote is granted although the candidate\'s log may be behind the own log', st)


class VoteOnce(VoteBase):
    name = 'vote-once'
    doc = 'between two points where state is saved, sent or the step ends, a recorded vote changes only if none was ' \
          'recorded in that term or the term rose'
    hard = frozenset(('voted_for_', 'term_'))
    must_see = ('transition',)

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def meta_for(self, en):
        return None

    def split(self, eng, st):
        T, v = self.tv(eng, st)
        return (decided(st, 'eq', v, C(-1)), decided(st, 'eq', v, eng.peek(st, REQ, self.getf('req_msg', 'get_src'))))

    def check(self, eng, st, site, stack=()):
        T, v = self.tv(eng, st)
        T, v = st.facts.canon(T), st.facts.canon(v)
        if st.meta is None:
            t0, v0 = ('fld', STATE, self.getf('srv_state', 'get_term')), ('fld', STATE, self.getf('srv_state', 'get_voted_for'))
        else:
            t0, v0 = st.meta
        st.meta = (T, v)
        if v == v0 and T == t0:
            return
        if decided(st, 'eq', v, v0) is True and decided(st, 'eq', T, t0) is True:
            return
        self.ob('transition', site)
        if self.en.name == 'request:join_cluster_request':
            return
        if holds(st, 'lt', t0, T):
            return
        if holds(st, 'eq', T, t0) and (holds(st, 'eq', v0, C(-1)) or holds(st, 'eq', v0, v)):
            return
        self.bad('changed', site, 'the recorded vote may change within a term (from %s to %s)' % (show(v0), show(v)), st, stack)

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in (SAVE, SEND):
            self.check(eng, st, ev.site, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] in ('done', 'exc'):
            self.check(eng, st, self.endsite())


class Durable(VoteBase):
    name = 'save-before-visible'
    doc = 'after a write of the term or vote, save_state(state) happens before any send, before the server lock is ' \
          'released and before the entry point returns'
    must_see = ('change', 'point')
    hard = frozenset(('voted_for_', 'term_'))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def meta_for(self, en):
        return None

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name in (self.getf('srv_state', 'get_term'), self.getf('srv_state', 'get_voted_for')) \
                and self.is_state(eng, st, ev.args[0]):
            if decided(st, 'eq', ev.args[1], ev.args[2]) is True:
                return
            self.ob('change', ev.site)
            st.meta = ev.site
        elif ev.kind == 'call' and ev.name == SAVE:
            if decided(st, 'eq', ev.args[1], self.state(eng, st)) is True:
                st.meta = None
        elif ev.kind == 'call' and ev.name == SEND:
            self.point(st, ev.site, 'a message is sent', 'send', ev.stack)
        elif ev.kind == 'unlock' and not any(m == ev.args[0] for m, _ in st.locks) and ev.args[0] == ('sub', THIS, 'lock_'):
            self.point(st, ev.site, 'the server lock is released', 'unlock', ev.stack)

    def point(self, st, site, what, key, stack=()):
        self.ob('point', site)
        if st.meta is not None:
            self.bad(key, st.meta, 'the term or vote changed here is not saved before %s (%s:%s)' % (what, site[0], site[1]), st, stack)

    def final(self, eng, st):
        if st.ctl[0] in ('done', 'exc', 'diverge'):
            self.point(st, self.endsite(), 'the step ends', 'end')


class TermForward(VoteBase):
    name = 'term-monotone'
    doc = 'every write of the current term writes a value not smaller than the old one, except when joining a cluster'
    must_see = ('write',)
    hard = frozenset(('term_',))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == self.getf('srv_state', 'get_term'):
            if not self.is_state(eng, st, ev.args[0]):
                return
            self.ob('write', ev.site)
            if self.en.name == 'request:join_cluster_request':
                return
            if not holds(st, 'le', ev.args[2], ev.args[1]):
                self.bad('back', ev.site, 'the term may decrease (from %s to %s)' % (show(ev.args[2]), show(ev.args[1])),
                         st, ev.stack)


ADOPT = ('request:vote_request', 'request:append_entries_request', 'request:install_snapshot_request')
RESPS = ('resp_handler_:vote_response', 'resp_handler_:append_entries_response', 'resp_handler_:install_snapshot_response')


class NewTermNoVote(VoteBase):
    name = 'new-term-no-vote'
    doc = 'whenever the term differs from the one last saved, the recorded vote is none, the server itself or the ' \
          'requester, never the vote of the old term'
    must_see = ('term-change',)
    hard = frozenset(('voted_for_', 'term_'))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def meta_for(self, en):
        return None

    def check(self, eng, st, site, stack=()):
        T, v = self.tv(eng, st)
        T, v = st.facts.canon(T), st.facts.canon(v)
        t0 = st.meta[0] if st.meta else ('fld', STATE, self.getf('srv_state', 'get_term'))
        v0 = st.meta[1] if st.meta else ('fld', STATE, self.getf('srv_state', 'get_voted_for'))
        st.meta = (T, v)
        if T == t0 or decided(st, 'eq', T, t0) is True:
            return
        self.ob('term-change', site)
        if holds(st, 'eq', v, C(-1)) or holds(st, 'eq', v, self.g(eng, st, 'id_')):
            return
        if self.en.name == 'request:vote_request' and \
                holds(st, 'eq', v, eng.peek(st, REQ, self.getf('req_msg', 'get_src'))):
            return
        self.bad('kept', site, 'a new term starts with the vote %s of another term still recorded' % show(v), st, stack)

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in (SAVE, SEND):
            self.check(eng, st, ev.site, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] in ('done', 'exc'):
            self.check(eng, st, self.endsite())


ACTS = {'log_store::append', 'log_store::write_at', 'log_store::compact', 'log_store::apply_pack',
        'state_machine::save_snapshot_data', 'state_machine::apply_snapshot', 'state_machine::pre_commit',
        'state_machine::rollback'}
ACTW = {'quick_commit_idx_', 'matched_idx_', 'next_log_idx_', 'votes_granted_', 'accepted_', 'sm_commit_index_'}


class Adopt(VoteBase):
    name = 'adopt-higher-term'
    doc = 'on receipt of a message with a higher term the term is adopted and the role becomes follower before the ' \
          'log, commit point, votes, progress or reply are touched'
    must_see = ('act', 'end', 'dethrone')
    hard = frozenset(('voted_for_', 'term_', 'role_'))

    def wants(self, en):
        return en.name in ADOPT or en.name in RESPS

    def begin(self, en):
        self.isreq = en.kind[0] == 'req'
        self.m = REQ if self.isreq else RESP

    def mterm(self, eng, st):
        return nn(eng.peek(st, self.m, self.getf('msg_base' if False else ('req_msg' if self.isreq else 'resp_msg'), 'get_term')))

    def split(self, eng, st):
        return (decided(st, 'le', self.mterm(eng, st), self.term(eng, st)),)

    def chk(self, eng, st, site, what, key, stack=()):
        mt, T = self.mterm(eng, st), self.term(eng, st)
        t0 = ('fld', STATE, self.getf('srv_state', 'get_term'))
        if not holds(st, 'le', mt, T):
            self.bad(key + '-term', site, 'a message with a higher term is %s without its term being adopted' % what, st, stack)
        if decided(st, 'eq', T, t0) is not True:
            self.ob('dethrone', site)
            if not holds(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'follower')):
                self.bad(key + '-role', site, 'a higher term was adopted but the server may not be a follower when the '
                         'message is %s' % what, st, stack)

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in ACTS or ev.kind == 'write' and ev.name in ACTW and ev.args[0][0] != 'new' \
                and not (ev.name == 'votes_granted_' and ev.args[1] == C(0)):
            self.ob('act', ev.site)
            self.chk(eng, st, ev.site, 'acted on', 'act', ev.stack)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        if not self.isreq:
            src = eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
            peers = ('sub', THIS, 'peers_')
            if holds(st, 'eq', ('app', 'has', peers, C(0), src), C(0)):
                return
        self.ob('end', self.endsite())
        self.chk(eng, st, self.endsite(), 'answered' if self.isreq else 'processed', 'end')


class StaleResponses(VoteBase):
    name = 'stale-response'
    doc = 'votes, match indices, next indices, commit point and snapshot progress change on a peer response only if ' \
          'the response carries the current term'
    must_see = ('progress',)
    hard = frozenset(('term_',))

    def wants(self, en):
        return en.name in RESPS

    def split(self, eng, st):
        return (decided(st, 'eq', nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_term'))), self.term(eng, st)),
                decided(st, 'le', self.term(eng, st), nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_term')))))

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name in ('votes_granted_', 'matched_idx_', 'next_log_idx_', 'quick_commit_idx_', 'offset_',
                                              'snp_sync_ctx_'):
            if ev.name == 'votes_granted_' and holds(st, 'eq', ev.args[1], C(0)):
                return
            if ev.args[0][0] == 'new':
                return
            self.ob('progress', ev.site)
            T, t = self.term(eng, st), nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_term')))
            if not holds(st, 'le', T, t):
                self.bad(ev.name, ev.site, '%s is updated from a response that may belong to an older term' % ev.name, st, ev.stack)


class LeaderNeedsMajority(VoteBase):
    name = 'leader-majority'
    doc = 'role becomes leader only where the path facts force votes_granted_ > (members)/2, checked for every cluster ' \
          'size up to 40, with no vote counted twice'
    must_see = ('become-leader',)
    hard = frozenset(('role_', 'votes_granted_', 'term_'))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def split(self, eng, st):
        return (decided(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'candidate')),)

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'role_' and ev.args[0] == THIS:
            L = self.enumv('srv_role', 'leader')
            if decided(st, 'eq', ev.args[1], L) is False:
                return
            self.ob('become-leader', ev.site)
            votes = self.g(eng, st, 'votes_granted_')
            n = eng.csize(st, ('sub', THIS, 'peers_'))
            ok, bad = quorum_ok(st.facts, votes, n)
            if not ok:
                self.bad('majority', ev.site, 'leadership is taken although %s votes of %s members may have been granted'
                         % (bad[0][0], bad[0][1] + 1), st, ev.stack)


class CountVotes(VoteBase):
    name = 'count-votes'
    doc = 'votes_granted_ is reset only together with the set of voters, and raised by one only for an accepted ' \
          'response of the current term from a member not yet counted, or for the server itself after a reset'
    must_see = ('count', 'reset')
    hard = frozenset(('role_', 'votes_granted_', 'term_', 'election_completed_'))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    # meta: (reset?, cleared?, selfvoted/inserted terms, increments, term-moved)
    meta0 = (0, 0, (), (), 0)

    def split(self, eng, st):
        src = eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
        return (decided(st, 'eq', ('app', 'has', ('sub', THIS, 'voted_servers_'), C(0), src), C(0)),
                decided(st, 'eq', eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted')), C(0)),
                decided(st, 'eq', nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_term'))), self.term(eng, st)))

    def event(self, eng, st, ev):
        VS = ('sub', THIS, 'voted_servers_')
        z, c, ins, inc, tm = st.meta
        if ev.kind == 'write' and ev.name == 'votes_granted_' and ev.args[0] == THIS:
            new, old = ev.args[1], ev.args[2]
            if holds(st, 'eq', new, C(0)):
                self.ob('reset', ev.site)
                st.meta = (1, c, ins, (), tm)
                return
            d = sub(new, old)
            self.ob('count', ev.site)
            if d != C(1):
                self.bad('step', ev.site, 'the vote count changes by %s' % show(d), st, ev.stack)
                return
            if inc:
                self.bad('twice', ev.site, 'the vote count may be raised twice in one step', st, ev.stack)
            if z:
                st.meta = (z, c, ins, inc + ('self',), tm)
                return
            # a response is being counted
            src = eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
            st.meta = (z, c, ins, inc + ('resp',), tm)
            if not holds(st, 'ne', eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted')), C(0)):
                self.bad('refusal', ev.site, 'a response that may be a refusal is counted as a vote', st, ev.stack)
            if not holds(st, 'eq', nn(eng.peek(st, RESP, self.getf('resp_msg', 'get_term'))), self.term(eng, st)):
                self.bad('term', ev.site, 'a vote of another term may be counted', st, ev.stack)
            if not holds(st, 'eq', ('app', 'has', VS, C(0), src), C(0)):
                self.bad('again', ev.site, 'a server whose vote was counted already may be counted again', st, ev.stack)
            if not holds(st, 'eq', self.g(eng, st, 'election_completed_'), C(0)):
                self.bad('completed', ev.site, 'a vote may be counted after the election was decided', st, ev.stack)
            if not holds(st, 'ne', ('app', 'has', ('sub', THIS, 'peers_'), C(0), src), C(0)):
                self.bad('member', ev.site, 'a vote of a server that may not be a member is counted', st, ev.stack)
        elif ev.kind == 'cont' and ev.args and ev.args[0] == VS:
            if ev.name == 'clear':
                st.meta = (z, 1, (), inc, tm)
            elif ev.name in ('insert', 'emplace', 'push'):
                st.meta = (z, c, ins + (st.facts.canon(ev.args[1]),), inc, tm)
        elif ev.kind == 'write' and ev.name == self.getf('srv_state', 'get_term') and self.is_state(eng, st, ev.args[0]):
            if decided(st, 'eq', ev.args[1], ev.args[2]) is not True:
                st.meta = (z, c, ins, inc, 1)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        z, c, ins, inc, tm = st.meta
        site = self.endsite()
        if self.en.name == 'request:join_cluster_request':
            return
        if tm and not (z and c):
            self.bad('stale', site, 'the term changed without the vote count and the set of voters being reset', st)
        if z != c:
            self.bad('reset', site, 'the vote count and the set of counted voters are not reset together', st)
        for i in inc:
            want = self.g(eng, st, 'id_') if i == 'self' else eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
            if not any(holds(st, 'eq', x, want) for x in ins):
                self.bad('unmarked', site, 'a counted vote is not entered in the set of counted voters', st)


class HonestRequest(VoteBase):
    name = 'honest-vote-request'
    doc = 'every vote and prevote request that is sent carries the current term, the own id, and the index and term of ' \
          'the own last log entry (snapshot included)'
    must_see = ('vote', 'prevote')
    hard = frozenset(('term_',))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def split(self, eng, st):
        last = sub(self.nxt(eng, st), C(1))
        sm = self.g(eng, st, 'state_machine_')
        snp = ('app', 'last_snapshot', sm, st.store.get((sm, '#smv'), C(0)))
        return (decided(st, 'le', self.start(eng, st), last), decided(st, 'eq', self.nxt(eng, st), C(1)),
                decided(st, 'eq', eng.peek(st, snp, self.getf('snapshot', 'get_last_log_idx')), last))

    def event(self, eng, st, ev):
        if ev.kind != 'call' or ev.name != SEND:
            return
        q = ev.args[1]
        ty = eng.peek(st, q, self.getf('req_msg', 'get_type'))
        isv = decided(st, 'eq', ty, self.enumv('msg_type', 'vote_request'))
        isp = decided(st, 'eq', ty, self.enumv('msg_type', 'prevote_request'))
        if not (isv or isp):
            return
        self.ob('vote' if isv else 'prevote', ev.site)
        f = lambda g: nn(eng.peek(st, q, self.getf('req_msg', g)))
        k = 'vote' if isv else 'prevote'
        if not holds(st, 'eq', f('get_term'), self.term(eng, st)):
            self.bad(k + '-term', ev.site, 'a %s request may not carry the current term' % k, st, ev.stack)
        if not holds(st, 'eq', eng.peek(st, q, self.getf('req_msg', 'get_src')), self.g(eng, st, 'id_')):
            self.bad(k + '-src', ev.site, 'a %s request may not name its sender' % k, st, ev.stack)
        last = sub(self.nxt(eng, st), C(1))
        if not holds(st, 'eq', f('get_last_log_idx'), last):
            self.bad(k + '-idx', ev.site, 'a %s request may name another index than that of the own last entry' % k, st, ev.stack)
        t = f('get_last_log_term')
        if not any(holds(st, 'eq', t, m) for m in self.own_last_terms(eng, st)):
            self.bad(k + '-last-term', ev.site, 'a %s request may name another term than that of the own last entry' % k, st, ev.stack)


# ---------------------------------------------------------------- C12
PV = ('fld', THIS, 'prevote_state_')


class PrevotePure(VoteBase):
    name = 'prevote-pure'
    doc = 'asking for, answering and counting prevotes leaves term, vote and role alone; they change only after a strict ' \
          'majority (checked for 1 to 40 members) accepted, or in a cluster of one'
    must_see = ('pass', 'alone', 'answer')
    hard = frozenset(('role_', 'term_', 'accepted_votes_'))
    ENT = ('request:prevote_request', 'ex_resp_handler_:prevote_response', 'election timeout 0')

    def wants(self, en):
        return en.name in ('request:prevote_request', 'ex_resp_handler_:prevote_response') or 'election timeout' in en.name

    def split(self, eng, st):
        n = eng.csize(st, PEERS)
        return (decided(st, 'eq', n, C(0)), decided(st, 'eq', self.enabled(eng, st), C(0)),
                decided(st, 'eq', ('fld', THIS, 'role_'), self.enumv('srv_role', 'follower')))

    def enabled(self, eng, st):
        return eng.peek(st, self.g(eng, st, 'params_', self.g(eng, st, 'ctx_')), 'prevote_enabled_')

    def event(self, eng, st, ev):
        if ev.kind != 'write':
            return
        if not (ev.name in (self.getf('srv_state', 'get_term'), self.getf('srv_state', 'get_voted_for'))
                and self.is_state(eng, st, ev.args[0]) or ev.name == 'role_' and ev.args[0] == THIS):
            return
        if decided(st, 'eq', ev.args[1], ev.args[2]) is True:
            return
        what = {'role_': 'role'}.get(ev.name, 'term' if ev.name == self.getf('srv_state', 'get_term') else 'vote')
        if self.en.kind[0] == 'req':
            self.bad('answer', ev.site, 'answering a prevote changes the %s' % what, st, ev.stack)
            return
        n = eng.csize(st, PEERS)
        if self.en.kind[0] != 'req' and 'response' not in self.en.name:
            # election timer: a real election starts at once only without prevote, as candidate, or alone
            if holds(st, 'eq', self.enabled(eng, st), C(0)) or holds(st, 'ne', ('fld', THIS, 'role_'), self.enumv('srv_role', 'follower')):
                return
            self.ob('alone', ev.site)
            if not holds(st, 'eq', n, C(0)):
                self.bad('timer', ev.site, 'the election timer changes the %s although prevote is on and there are other '
                         'members' % what, st, ev.stack)
            return
        self.ob('pass', ev.site)
        votes = eng.peek(st, PV, self.getf('prevote_state', 'get_accepted_votes'))
        ok, bad = quorum_ok(st.facts, votes, n)
        if not ok:
            self.bad('majority', ev.site, 'the %s changes after %s of %s members may have accepted the prevote'
                     % (what, bad[0][0], bad[0][1] + 1), st, ev.stack)

    def final(self, eng, st):
        if self.en.kind[0] == 'req':
            self.ob('answer', self.endsite())


PEERS = ('sub', THIS, 'peers_')


class PrevoteAnswer(VoteBase):
    name = 'prevote-grant'
    doc = 'an accepted prevote response implies: request term not behind, requester\'s log at least as up to date, and in ' \
          'defensive mode that the server itself is in prevote'
    must_see = ('granted',)
    hard = frozenset(('accepted_',))

    def wants(self, en):
        return en.name == 'request:prevote_request'

    def split(self, eng, st):
        T, v = self.tv(eng, st)
        return (decided(st, 'le', T, self.req(eng, st, 'get_term')), self.defensive(eng, st),
                decided(st, 'eq', self.g(eng, st, 'prevote_state_'), NULL)) + self.log_lits(eng, st)

    def defensive(self, eng, st):
        return decided(st, 'eq', eng.peek(st, self.g(eng, st, 'params_', self.g(eng, st, 'ctx_')), 'defensive_prevote_'), C(0))

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        r = st.ctl[1]
        acc = eng.peek(st, r, self.getf('resp_msg', 'get_accepted'))
        if holds(st, 'eq', acc, C(0)) or holds(st, 'eq', r, NULL):
            return
        site = self.endsite()
        self.ob('granted', site)
        T, v = self.tv(eng, st)
        if not holds(st, 'le', T, self.req(eng, st, 'get_term')):
            self.bad('term', site, 'a prevote is accepted although the request may carry an older term', st)
        if not self.up_to_date(eng, st):
            self.bad('log', site, 'a prevote is accepted although the requester\'s log may be behind the own log', st)
        if self.defensive(eng, st) is not True and not holds(st, 'ne', self.g(eng, st, 'prevote_state_'), NULL):
            self.bad('defensive', site, 'in defensive mode a prevote may be accepted by a server that has not lost its leader', st)


class PrevoteCount(VoteBase):
    name = 'prevote-count'
    doc = 'an accepted prevote is counted once per member per round, refusals and strangers are not counted, the count and ' \
          'the set of counted members are reset together, and the server counts itself once at the start of a round'
    must_see = ('count', 'self')
    hard = frozenset(('accepted_votes_', 'prevote_state_'))
    # meta: (count zeroed, set cleared, inserted, increments)
    meta0 = (0, 0, (), ())

    def wants(self, en):
        return en.name == 'ex_resp_handler_:prevote_response' or 'election timeout' in en.name

    def vf(self):
        c = self.p.__dict__.setdefault('_pvset', None)
        if c is None:
            fs = [f['n'] for f in (self.p.classes.get(NS + 'prevote_state') or {}).get('fields', []) if 'set<' in f.get('t', '')]
            if len(fs) != 1:
                raise AnalysisBroken('prevote_state has no single set of voters')
            c = self.p._pvset = fs[0]
        return c

    def voters(self, eng, st, o):
        return ('sub', o, self.vf())

    def split(self, eng, st):
        if 'response' not in self.en.name:
            v = self.voters(eng, st, PV)
            return (decided(st, 'eq', PV, NULL), decided(st, 'eq', eng.csize(st, v), C(0)),
                    decided(st, 'eq', ('app', 'size', v, C(0)), C(0)))
        src = eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
        return (decided(st, 'eq', ('app', 'has', self.voters(eng, st, PV), C(0), src), C(0)),
                decided(st, 'eq', eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted')), C(0)),
                decided(st, 'eq', ('app', 'has', PEERS, C(0), src), C(0)))

    def event(self, eng, st, ev):
        z, c, ins, inc = st.meta
        f = self.getf('prevote_state', 'get_accepted_votes')
        if ev.kind == 'write' and ev.name == f:
            o, new, old = ev.args
            if holds(st, 'eq', new, C(0)):
                st.meta = (1, c, ins, ())
                return
            if sub(new, old) != C(1):
                self.bad('step', ev.site, 'the prevote count changes by %s' % show(sub(new, old)), st, ev.stack)
                return
            if inc:
                self.bad('twice', ev.site, 'the prevote count may be raised twice in one step', st, ev.stack)
            st.meta = (z, c, ins, inc + (1,))
            if 'response' in self.en.name:
                self.ob('count', ev.site)
                src = eng.peek(st, RESP, self.getf('resp_msg', 'get_src'))
                if not holds(st, 'ne', eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted')), C(0)):
                    self.bad('refusal', ev.site, 'a response that may be a refusal is counted as a prevote', st, ev.stack)
                if not holds(st, 'eq', ('app', 'has', self.voters(eng, st, PV), C(0), src), C(0)):
                    self.bad('again', ev.site, 'a server whose prevote was counted already may be counted again', st, ev.stack)
                if not holds(st, 'ne', ('app', 'has', PEERS, C(0), src), C(0)):
                    self.bad('member', ev.site, 'a prevote of a server that may not be a member is counted', st, ev.stack)
            else:
                self.ob('self', ev.site)
                if not (z or holds(st, 'eq', old, C(0)) or o[0] == 'new' or
                        holds(st, 'eq', eng.csize(st, self.voters(eng, st, o)), C(0)) or
                        holds(st, 'eq', eng.csize(st, self.voters(eng, st, PV)), C(0)) or
                        holds(st, 'eq', ('app', 'size', self.voters(eng, st, PV), C(0)), C(0))):
                    self.bad('round', ev.site, 'a prevote round starts with prevotes counted in an earlier one', st, ev.stack)
        elif ev.kind == 'cont' and ev.args and ev.args[0][0] == 'sub' and ev.args[0][2] == self.vf():
            if ev.name == 'clear':
                st.meta = (z, 1, (), inc)
            elif ev.name in ('insert', 'emplace', 'push'):
                st.meta = (z, c, ins + (st.facts.canon(ev.args[1]),), inc)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        z, c, ins, inc = st.meta
        site = self.endsite()
        if z != c and holds(st, 'ne', self.g(eng, st, 'prevote_state_'), NULL):
            self.bad('reset', site, 'the prevote count and the set of counted servers are not reset together', st)
        if inc:
            want = eng.peek(st, RESP, self.getf('resp_msg', 'get_src')) if 'response' in self.en.name else self.g(eng, st, 'id_')
            if not any(holds(st, 'eq', x, want) for x in ins) and not c:
                self.bad('unmarked', site, 'a counted prevote is not entered in the set of counted servers', st)


class PrevoteEnds(VoteBase):
    name = 'prevote-ends'
    doc = 'a server enters prevote only when its election timer fires, and leaves it when it hears from the leader of its ' \
          'term, adopts a higher term or starts an election'
    must_see = ('heard', 'enter', 'elect')
    hard = frozenset(('prevote_state_', 'term_', 'role_'))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def split(self, eng, st):
        return (decided(st, 'eq', PV, NULL), decided(st, 'eq', ('fld', THIS, 'catching_up_'), C(0))) + ((decided(st, 'lt', self.req(eng, st, 'get_term'), self.term(eng, st)),)
                                                 if self.en.kind[0] == 'req' else ())

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'prevote_state_' and decided(st, 'eq', ev.args[1], NULL) is not True \
                and decided(st, 'eq', ev.args[1], ev.args[2]) is not True:
            self.ob('enter', ev.site)
            if 'election timeout' not in self.en.name:
                self.bad('enter', ev.site, 'the server enters prevote without its election timer having fired', st, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        none = holds(st, 'eq', self.g(eng, st, 'prevote_state_'), NULL)
        if self.en.name in ('request:append_entries_request', 'request:install_snapshot_request'):
            if decided(st, 'lt', self.req(eng, st, 'get_term'), self.term(eng, st)) is True:
                return
            if holds(st, 'eq', st.ctl[1], NULL) or decided(st, 'eq', ('fld', THIS, 'catching_up_'), C(0)) is False:
                return
            self.ob('heard', site)
            if not none:
                self.bad('heard', site, 'a server that heard from the leader of its term may stay in prevote', st)
        t0 = ('fld', STATE, self.getf('srv_state', 'get_term'))
        if decided(st, 'eq', self.term(eng, st), t0) is not True and self.en.name != 'request:join_cluster_request':
            self.ob('elect', site)
            if not none:
                self.bad('elect', site, 'a server whose term moved on may stay in the prevote of the old term', st)


RULES = [VoteGrant, VoteOnce, Durable, TermForward, NewTermNoVote, Adopt, StaleResponses, LeaderNeedsMajority, CountVotes, HonestRequest, PrevotePure,
         PrevoteAnswer, PrevoteCount, PrevoteEnds]
