"""C14: requests and replies; C15: client entries; C25: fail-stop."""
from ..rule import *
from ..raft import lam_entry, uncapture, run_entry
from .timers import StepRule, PEERS, LOCK
from .peers import SEND

REPLY = {'client_request': 'append_entries_response'}
TO_LEADER = ('client_request', 'add_server_request', 'remove_server_request')
LEADER = ('fld', THIS, 'leader_')


def reply_of(n):
    return REPLY.get(n, n[:-len('request')] + 'response')


def requests(en):
    return en.kind[0] == 'req' and en.kind[1].endswith('_request')


class Reply(Rule):
    name = 'matching-reply'
    doc = 'every request kind gets, on every path, a reply of its kind with the term of the server, its id as source and the ' \
          'requester as destination (the known leader for client-side requests), and the reply accepts only if the action the ' \
          'request asks for was taken on that path'
    must_see = ('reply', 'accepted')
    hard = frozenset(('accepted_',))
    ACTIONS = {
        'add_server_request': ('send', 'join_cluster_request'),
        'remove_server_request': ('send', 'leave_cluster_request'),
        'sync_log_request': ('call', 'log_store::apply_pack'),
        'install_snapshot_request': ('call', 'state_machine::save_snapshot_data'),
        'client_request': ('call', 'log_store::append'),
        'join_cluster_request': ('write', 'catching_up_'),
        'leave_cluster_request': ('write', 'steps_to_down_'),
        'vote_request': ('vote', None),
    }
    # meta: the action was taken
    meta0 = 0

    def wants(self, en):
        return requests(en)

    def split(self, eng, st):
        if self.en.kind[1] == 'client_request':
            # a leader that lost contact with its peers names nobody
            return (st.meta, decided(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader')))
        return st.meta

    def event(self, eng, st, ev):
        a = self.ACTIONS.get(self.en.kind[1])
        if a is None:
            return
        if a[0] == 'send' and ev.kind == 'call' and ev.name == SEND:
            t = eng.peek(st, ev.args[1], self.getf('req_msg', 'get_type'))
            if decided(st, 'eq', t, self.enumv('msg_type', a[1])) is True:
                st.meta = 1
        elif a[0] == 'call' and ev.kind == 'call' and ev.name == a[1]:
            st.meta = 1
        elif a[0] == 'write' and ev.kind == 'write' and ev.name == a[1] and ev.args[0] == THIS:
            st.meta = 1 if holds(st, 'ne', ev.args[1], C(0)) or holds(st, 'le', C(1), ev.args[1]) else 0

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        kind = self.en.kind[1]
        v = st.ctl[1]
        site = self.endsite()
        self.ob('reply', site)
        if v is None or decided(st, 'eq', v, NULL) is True:
            self.bad('none', site, 'a %s may get no reply' % kind, st)
            return
        f = lambda g: eng.peek(st, v, self.getf('resp_msg', g))
        rq = lambda g: eng.peek(st, REQ, self.getf('req_msg', g))
        if not holds(st, 'eq', f('get_type'), self.enumv('msg_type', reply_of(kind))):
            self.bad('type', site, 'a %s may be answered with something other than %s' % (kind, reply_of(kind)), st)
        if not holds(st, 'eq', f('get_src'), self.g(eng, st, 'id_')):
            self.bad('src', site, 'the reply to a %s may not name this server as its source' % kind, st)
        T0 = ('fld', STATE, self.getf('srv_state', 'get_term'))
        T = self.term(eng, st)
        if not holds(st, 'eq', f('get_term'), T) and not (kind == 'join_cluster_request' and holds(st, 'eq', f('get_term'), T0)):
            self.bad('term', site, 'the reply to a %s may not carry the current term of the server' % kind, st)
        d = f('get_dst')
        if kind in TO_LEADER:
            ok = holds(st, 'eq', d, self.g(eng, st, 'leader_')) or holds(st, 'eq', d, LEADER) or \
                holds(st, 'eq', d, C(-1)) and kind == 'client_request' and \
                holds(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader'))
            if not ok:
                self.bad('leader', site, 'the reply to a %s may not name the leader this server knows' % kind, st)
        elif not holds(st, 'eq', d, rq('get_src')):
            self.bad('dst', site, 'the reply to a %s may not go back to its sender' % kind, st)
        acc = decided(st, 'eq', f('get_accepted'), C(0))
        if acc is True:
            return
        self.ob('accepted', site)
        if kind not in self.ACTIONS or st.meta:
            return
        a = self.ACTIONS[kind]
        if a[0] == 'vote' and holds(st, 'eq', self.vote(eng, st), rq('get_src')):
            return
        if kind == 'client_request' and decided(st, 'eq', eng.csize(st, ('sub', REQ, self.getf('req_msg', 'log_entries'))), C(0)) is True:
            return
        self.bad('claim', site, 'a %s may be accepted although what it asks for was not done' % kind, st)


class ReplyHandled(Rule):
    name = 'reply-handled'
    doc = 'for every kind of request sent with a response handler, that handler acts on the matching kind of reply: some path of ' \
          'a reply of the current term changes state or sends'
    must_see = ('sent', 'acts')

    def wants(self, en):
        return en.kind[0] not in ('dtor', 'ctor')

    def handles(self):
        return self.en.kind[0] in ('resp_handler_', 'ex_resp_handler_') and self.en.kind[1] != 'error'

    def extra_facts(self, en):
        if self.handles():
            return (('eq', nn(('fld', RESP, self.getf('resp_msg', 'get_term'))), nn(('fld', STATE, self.getf('srv_state', 'get_term')))),)
        return ()

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name == SEND and ev.args[0][0] == 'fld':
            h = self.handler(eng, st, ev)
            t = st.facts.canon(eng.peek(st, ev.args[1], self.getf('req_msg', 'get_type')))
            if h is not None and t[0] == 'c':
                self.ob('sent', ev.site)
                self.ob('sent %s %d' % (h, t[1]), ev.site)
        if self.handles() and not eng.quiet:
            if ev.kind == 'write' and ev.name not in ('last_resp_', '#size') and ev.args[0][0] != 'new' or \
                    ev.kind == 'call' and ev.name in (SEND, 'log_store::append') or ev.kind == 'cas' or \
                    ev.kind == 'cont' and ev.name in ('insert', 'erase'):
                self.ob('acts', ev.site)
                self.ob('acts %s %s' % self.en.kind, ev.site)

    def handler(self, eng, st, ev):
        """the response handler of the server behind the completion callback of a request"""
        seen, todo = set(), [a for a in ev.args[2:] if a is not None]
        while todo:
            a = todo.pop()
            if a in seen or len(seen) > 40:
                continue
            seen.add(a)
            if a[0] == 'fld' and a[1] == THIS:
                return a[2]
            if a[0] == 'lam':
                todo.extend(v for v in dict(a[2]).values() if v is not None and v[0] in ('new', 'lam', 'fld'))
            elif a[0] == 'new':
                todo.extend(v for k, v in st.store.items() if k[0] == a and v is not None and v[0] in ('fld', 'lam'))
        return None

    @classmethod
    def combine(cls, prog, ob):
        names = {v: n for n, v in prog.enum(NS + 'msg_type').items()}
        for k in sorted(ob):
            if k.startswith('sent '):
                _, h, t = k.split()
                n = names.get(int(t))
                if n is None or not n.endswith('_request'):
                    continue
                if not ob.get('acts %s %s' % (h, reply_of(n))):
                    f, ln, en = sorted(ob[k])[0]
                    yield Finding(cls.name, 'dead/%s/%s' % (h, n), (f, ln, en),
                                  'a %s is sent with %s, which never acts on a %s' % (n, h, reply_of(n)), en)



def mentions(t, what):
    if not isinstance(t, tuple):
        return False
    if t[0] == 'fld' and t[2] == what:
        return True
    return any(mentions(x, what) for x in t)


def subterms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def inside(t, x):
    return t == x or isinstance(t, tuple) and any(inside(y, x) for y in t)


def polarity(t, x):
    """1/-1: t grows/shrinks with x, 0: unknown or not at all"""
    if t == x:
        return 1
    if not isinstance(t, tuple) or not t:
        return 0
    if t[0] in ('lin', 'c'):
        r = {polarity(a, x) * (1 if k > 0 else -1) for a, k in lin(t)[1] if inside(a, x)}
        return r.pop() if len(r) == 1 else 0
    if t[0] == 'app':
        args = t[2:]
        if t[1] in ('-', 'operator-', 'chrono:operator-') and len(args) == 2:
            if inside(args[0], x):
                return 0 if inside(args[1], x) else polarity(args[0], x)
            return -polarity(args[1], x)
        ins = [a for a in args if inside(a, x)]
        if len(ins) == 1 and t[1] in ('chrono:count', 'count', 'chrono:duration_cast', 'duration_cast', 'chrono:operator+', 'chrono:time_point_cast', 'max', 'min'):
            return polarity(ins[0], x)
    return 0


class LeaderAppends(Rule):
    name = 'leader-appends'
    doc = 'an entry submitted by a client is appended only where the server is known to be leader and either has no peers or the ' \
          'k-th response time of its peers is recent, k leaving a strict majority (1 to 40 members); its term is the current ' \
          'term; acceptance is reported exactly when every entry was appended, and a request to every peer is tried afterwards'
    must_see = ('append', 'recent', 'accepted', 'replicated')
    hard = frozenset(('role_', 'accepted_'))
    LIMIT = 40
    # meta: (leader known recent, appended, containers with response times of the peers)
    meta0 = (0, 0, frozenset())
    RECENT = 'last_resp_'

    def wants(self, en):
        return en.name in ('request:client_request', 'api:append_entries', 'api:replicate_log')

    def split(self, eng, st):
        rec, app, cs = st.meta
        acc = None
        return (rec, app, decided(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader')))

    def entries_of(self, eng, st):
        return self.reqs

    def begin(self, en):
        self.reqs = set()

    def norm(self, eng, st):
        rec, app, cs = st.meta
        if not rec and self.recent(eng, st):
            st.meta = (1, app, frozenset())
        if decided(st, 'eq', eng.csize(st, PEERS), C(0)) is True:
            st.cov = st.cov | {('all', 'tried', PEERS)}

    def recent(self, eng, st):
        rec, app, cs = st.meta
        if rec:
            return True
        n = eng.csize(st, PEERS)
        if decided(st, 'eq', n, C(0)) is True:
            return True
        for op, a, b in st.facts.lits():
            if op != 'le':
                continue
            for x in subterms(a):
                if x[0] == 'app' and x[1] == 'elem' and len(x) > 4 and x[2] in cs and sub(b, a) != C(0) and polarity(sub(a, b), x) != 1:
                    w = self.majority(eng, st, x[2], x[4], n)
                    if w is None:
                        return True
                    self.why = w
            if 'other' in cs:
                return True
        return False

    why = 'nothing bounds the time since its peers answered'

    def majority(self, eng, st, c, idx, n):
        srt = st.store.get((c, '#sorted'))
        if srt is None or srt[1] not in ('asc', 'desc'):
            return 'the response times are not sorted'
        if srt[2] != NULL and decided(st, 'eq', srt[2], idx) is not True:
            return 'only another element is in its sorted place'
        fn = st.facts.canon(n)
        for k in range(1, self.LIMIT):
            if fn[0] == 'c' and fn[1] != k:
                continue
            env = {n: k, fn: k} if fn[0] != 'c' else {n: k}
            if not feasible(st.facts, env):
                continue
            i = ev_term(idx, env)
            if i is None:
                return 'the index %s does not depend on the number of peers alone' % show(idx)
            ge = k - i if srt[1] == 'asc' else i + 1
            if i < 0 or i >= k or 2 * (ge + 1) <= k + 1:
                return 'of %d members only %d are known to have been heard from' % (k + 1, ge + 1)
        return None

    def event(self, eng, st, ev):
        rec, app, cs = st.meta
        if ev.kind == 'cont' and ev.name in ('push', 'set', 'insert') and ev.args:
            if any(a is not None and mentions(a, self.RECENT) for a in ev.args[1:]):
                st.meta = (rec, app, cs | {ev.args[0]})
        elif ev.kind == 'ext' and not rec and any(a is not None and mentions(a, self.RECENT) and not
                                                  any(x[0] == 'app' and x[1] == 'elem' and x[2] in cs for x in subterms(a))
                                                  for a in ev.args):
            st.meta = (rec, app, cs | {'other'})
        elif ev.kind == 'call' and ev.name == 'log_store::append':
            self.ob('append', ev.site)
            e = ev.args[1]
            if not holds(st, 'eq', self.g(eng, st, 'role_'), self.enumv('srv_role', 'leader')):
                self.bad('notleader', ev.site, 'a client entry may be appended by a server that is not leader', st, ev.stack)
            if self.recent(eng, st):
                self.ob('recent', ev.site)
            else:
                self.bad('recent', ev.site, 'a client entry may be appended by a leader that has not heard from a majority recently (%s)' % self.why, st, ev.stack)
            if not holds(st, 'eq', eng.peek(st, e, self.getf('log_entry', 'get_term')), self.term(eng, st)):
                self.bad('term', ev.site, 'a client entry may be appended without the current term of the leader', st, ev.stack)
            st.meta = (rec, 1, cs)
            st.cov = frozenset(c for c in st.cov if c[1] != 'tried')
            if e[0] == 'app' and e[1] == 'elem':
                self.reqs.add(e[2])
                eng.cover(st, 'appended', e[2], e[4])
            self.norm(eng, st)
        elif ev.name == 'busy_flag_' and (ev.kind == 'cas' or ev.kind == 'write' and holds(st, 'ne', ev.args[1], C(0))):
            x = ev.args[0]
            if x[0] == 'fld' and x[2] == 'second' and x[1][0] == 'app' and x[1][1] == 'elem' and x[1][2] == PEERS:
                eng.cover(st, 'tried', PEERS, x[1][4])

    def result(self, eng, st):
        """the flag that tells the caller whether its entries were accepted"""
        v = st.ctl[1]
        if v is None:
            return None
        if self.en.name == 'request:client_request':
            return eng.peek(st, v, self.getf('resp_msg', 'get_accepted'))
        if self.en.name == 'api:replicate_log':
            return v
        if decided(st, 'eq', eng.peek(st, v, 'has_result_'), C(0)) is True:
            return None
        return eng.peek(st, v, 'result_')

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        rec, app, cs = st.meta
        r = self.result(eng, st)
        if r is None:
            if app:
                self.bad('untold', site, 'entries may be appended without the caller being told', st)
            return
        no = decided(st, 'eq', r, C(0))
        if app:
            if no is not False:
                self.bad('refused', site, 'entries may be appended to the log although the caller is told they were not', st)
            if eng.covered_all(st, 'tried', PEERS):
                self.ob('replicated', site)
            else:
                self.bad('slow', site, 'appended entries may not be replicated at once to every peer', st)
        if no is True:
            return
        self.ob('accepted', site)
        if self.en.name == 'api:replicate_log':
            if not app:
                self.bad('claim', site, 'an entry may be reported as accepted without having been appended', st)
            return
        if not app:
            cs = [('sub', REQ, self.getf('req_msg', 'log_entries'))] if self.en.kind[0] == 'req' else []
            if not any(decided(st, 'eq', eng.csize(st, c), C(0)) is True for c in cs):
                self.bad('claim', site, 'entries may be reported as accepted without having been appended', st)
        elif not any(eng.covered_all(st, 'appended', c) for c in self.reqs):
            self.bad('some', site, 'entries may be reported as accepted although some were not appended', st)


class Forward(Rule):
    name = 'forward'
    doc = 'a request made through the API is refused when no leader is known, handled locally when this server leads, and ' \
          'otherwise sent to the client of the known leader, whose completion passes acceptance or the error on to the caller'
    must_see = ('refused', 'local', 'sent')
    # meta: (requests sent, locally produced reply)
    meta0 = (frozenset(),)
    hard = frozenset(('accepted_',))

    def wants(self, en):
        return en.name in ('api:append_entries', 'api:add_srv', 'api:remove_srv')

    def split(self, eng, st):
        return (st.meta, decided(st, 'eq', LEADER, C(-1)), decided(st, 'eq', LEADER, ('fld', THIS, 'id_')))

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name == SEND and len(ev.args) > 2 and ev.args[2] is not None and ev.args[2][0] == 'lam':
            cap = [v for v in dict(ev.args[2][2]).values() if v is not None]
            if any(v[0] == 'new' and 'async_result<bool' in str(v[1]) for v in cap):
                st.meta = (st.meta[0] | {(ev.args[0], frozenset(cap))},)

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        v = st.ctl[1]
        if v is None or decided(st, 'eq', v, NULL) is True:
            self.bad('none', site, 'a caller may get no result object', st)
            return
        done = decided(st, 'eq', eng.peek(st, v, 'has_result_'), C(0))
        known = decided(st, 'eq', LEADER, C(-1))
        sent = st.meta[0]
        if done is True:
            # still open: must be completed by a request in flight
            self.ob('sent', site)
            if not any(v in cap for _, cap in sent):
                self.bad('open', site, 'a caller may wait for a result that nothing will deliver', st)
            return
        r = eng.peek(st, v, 'result_')
        if decided(st, 'eq', r, C(0)) is True:
            self.ob('refused', site)
            if sent:
                self.bad('told', site, 'a caller may be told of refusal although its request was sent', st)
            return
        self.ob('local', site)
        if r[0] == 'fld' and r[2] == self.getf('resp_msg', 'get_accepted') or decided(st, 'eq', LEADER, ('fld', THIS, 'id_')) is True:
            return
        self.bad('claim', site, 'a caller may be told of acceptance although no leader took its request', st)


class ForwardDone(Rule):
    name = 'forward-completion'
    doc = 'the completion of a forwarded request delivers the acceptance in the response, or the error, to the caller'
    must_see = ('delivered',)
    meta0 = 0
    hard = frozenset(('result_', 'err_'))

    @classmethod
    def entries(cls, prog, cb, ens):
        found = {}

        class H(RaftHooks):
            def record(self, eng, st, ev):
                if ev.kind == 'call' and ev.name == SEND:
                    for a in ev.args:
                        if a is not None and a[0] == 'lam' and any(
                                v is not None and v[0] == 'new' and 'async_result<bool' in str(v[1]) for v in dict(a[2]).values()):
                            found.setdefault(a[1], a)
        for en in ens:
            if en.name == 'api:remove_srv':
                run_entry(prog, H(), en)
        if not found:
            raise AnalysisBroken('no API call sends a request with a completion that delivers a result')
        out = []
        for k, a in sorted(found.items()):
            lam = uncapture(a, 'fwd')
            out.append(lam_entry(prog, 'forwarded request answered', lam, (RESP, NULL), (('ne', RESP, NULL),), kind=('fwd', 'ok')))
            out.append(lam_entry(prog, 'forwarded request failed', lam, (NULL, ERR), (('ne', ERR, NULL),), kind=('fwd', 'err')))
        return out

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'has_result_' and holds(st, 'ne', ev.args[1], C(0)):
            st.meta = st.meta + 1 if st.meta < 2 else 2

    def split(self, eng, st):
        return (st.meta, decided(st, 'eq', eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted')), C(0)))

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        site = self.endsite()
        self.ob('delivered', site)
        if st.meta != 1:
            self.bad('count', site, 'a forwarded request may be completed %s' % ('never' if not st.meta else 'more than once'), st)
            return
        os = [k[0] for k in st.store if k[1] == 'has_result_']
        for o in os:
            r, e = eng.peek(st, o, 'result_'), eng.peek(st, o, 'err_')
            if self.en.kind[1] == 'ok':
                acc = eng.peek(st, RESP, self.getf('resp_msg', 'get_accepted'))
                if decided(st, 'eq', acc, C(0)) is not True and decided(st, 'eq', r, C(0)) is True or \
                        decided(st, 'eq', acc, C(0)) is True and decided(st, 'eq', r, C(0)) is not True or \
                        not holds(st, 'eq', r, acc) and decided(st, 'eq', acc, C(0)) is None:
                    self.bad('value', site, 'the caller may be told something else than the response says (%s)' % show(r), st)
                if not holds(st, 'eq', e, NULL):
                    self.bad('error', site, 'the caller may be given an error although a response arrived', st)
            else:
                if not holds(st, 'eq', e, ERR) and not holds(st, 'ne', e, NULL):
                    self.bad('lost', site, 'the caller may not be told of a transport error', st)



class FailStop(Rule):
    name = 'fail-stop'
    doc = 'from a state that must never occur (an append or snapshot request of another leader of the own term, an election ' \
          'timeout of a leader, a request or reply of a kind that has no handler) every path requests system exit before any ' \
          'other effect on the server'
    must_see = ('stops',)
    HANDLED = {'resp_handler_': ('vote_response', 'append_entries_response', 'install_snapshot_response'),
               'ex_resp_handler_': ('sync_log_response', 'join_cluster_response', 'leave_cluster_response',
                                    'install_snapshot_response', 'prevote_response')}

    @classmethod
    def entries(cls, prog, cb, ens):
        import copy
        self = cls(prog)
        role, cu, sd = (('fld', THIS, x) for x in ('role_', 'catching_up_', 'steps_to_down_'))
        T = nn(('fld', STATE, self.getf('srv_state', 'get_term')))
        L = ('eq', role, self.enumv('srv_role', 'leader'))
        out = []

        def add(en, name, why, *facts):
            e = copy.copy(en)
            e.name, e.facts, e.why = name, tuple(en.facts) + facts, why
            out.append(e)
        for en in ens:
            if en.kind[0] == 'req':
                same = ('eq', nn(('fld', REQ, self.getf('req_msg', 'get_term'))), T)
                if en.kind[1] == 'append_entries_request':
                    add(en, en.name + ' of another leader', 'a leader that receives entries from another leader of its own term', L, same)
                elif en.kind[1] == 'install_snapshot_request':
                    add(en, en.name + ' of another leader', 'a leader that receives a snapshot from another leader of its own term', L, same, ('eq', cu, C(0)))
                elif en.kind[1].endswith('_response'):
                    add(en, en.name, 'a request of unknown kind (%s)' % en.kind[1])
            elif en.kind[0] == 'timer':
                add(en, en.name + ' of a leader', 'an election timeout of a leader', L, ('eq', cu, C(0)), ('le', sd, C(0)))
            elif en.kind[0] in cls.HANDLED and en.kind[1] != 'error' and en.kind[1] not in cls.HANDLED[en.kind[0]]:
                src = ('fld', RESP, self.getf('resp_msg', 'get_src'))
                add(en, en.name, 'a response of unknown kind (%s)' % en.kind[1],
                    ('eq', nn(('fld', RESP, self.getf('resp_msg', 'get_term'))), T), ('ne', ('app', 'has', PEERS, C(0), src), C(0)))
        return out

    # meta: system exit requested
    meta0 = 0

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name == 'state_mgr::system_exit':
            st.meta = 1
        elif st.meta or eng.quiet:
            return
        elif ev.kind == 'write' and ev.args[0][0] in ('this', 'fld') and ev.name not in ('last_resp_', 'pos_', '#size') and \
                not mentions(ev.args[0], 'ctx_') or ev.kind == 'call' and (ev.name == SEND or ev.name in (
                    'log_store::append', 'log_store::write_at', 'state_mgr::save_state', 'state_mgr::save_config',
                    'state_machine::commit', 'state_machine::apply_snapshot')):
            if ev.kind == 'write' and (ev.args[0][0] == 'fld' and ev.args[0] != STATE or ev.name == 'steps_to_down_'):
                return
            self.bad('effect', ev.site, 'the server acts (%s) instead of stopping on %s' % (ev.name, self.en.why), st, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] == 'done':
            self.bad('goes on', self.endsite(), 'the server may go on after %s' % self.en.why, st)
        elif st.ctl[0] == 'exit':
            self.ob('stops', self.endsite())
            if not st.meta:
                self.bad('silent', self.endsite(), 'the server may end without requesting system exit after %s' % self.en.why, st)


class FailStopResults(Rule):
    name = 'fail-stop-results'
    doc = 'a failed snapshot application, an exception while committing or while storing a snapshot, a short read of a snapshot and ' \
          'a missing snapshot lead to system exit: no later effect and no normal end on such a path, and nothing known to be ' \
          'missing is dereferenced'
    must_see = ('apply', 'caught', 'deref', 'term')
    logs = True
    # meta: what went wrong
    meta0 = ('', ())

    def wants(self, en):
        return en.kind[0] != 'dtor'

    def split(self, eng, st):
        return (st.meta, decided(st, 'eq', self.g(eng, st, 'last_snapshot_'), NULL)) + \
            tuple(decided(st, 'eq', v, NULL) for v in st.meta[1])

    def norm(self, eng, st):
        if not st.meta[0] and self.failed(eng, st):
            st.meta = (self.failed(eng, st), st.meta[1])

    THROWERS = {'thread': ('state_machine::commit', 'state_mgr::save_config'),
                'req': ('state_machine::save_snapshot_data', 'state_machine::apply_snapshot', 'log_store::compact')}

    def on_throw(self, eng, st, what, e):
        what = what[len(NS):] if what.startswith(NS) else what
        if what in self.THROWERS.get(self.en.kind[0], ()):
            st.meta = ('an exception from ' + what, st.meta[1])

    def event(self, eng, st, ev):
        w, vs = st.meta
        if ev.kind == 'catch' and w:
            self.ob('caught', ev.site)
            return
        if ev.kind in ('deref', 'mem') and ev.args and ev.args[0] is not None:
            self.ob('deref', ev.site)
            if decided(st, 'eq', ev.args[0], NULL) is True and not eng.quiet:
                self.bad('null:%s' % ev.site[1], ev.site, 'a pointer that is null on this path is dereferenced', st, ev.stack)
            return
        if st.ctl:
            return
        if ev.kind == 'call' and ev.name == 'state_machine::apply_snapshot':
            self.ob('apply', ev.site)
            return
        if ev.kind == 'call' and ev.name == 'state_machine::last_snapshot' and self.en.kind[0] != 'thread':
            S = ('app', 'last_snapshot', ev.args[0], st.store.get((ev.args[0], '#smv'), C(0)))
            if S not in vs:
                st.meta = (w, vs + (S,))
            return
        if ev.kind == 'call' and ev.name == SEND and ev.args[0][0] == 'fld':
            q = lambda g: eng.peek(st, ev.args[1], self.getf('req_msg', g))
            t = q('get_last_log_term')
            sf, si = self.getf('snapshot', 'get_last_log_term'), self.getf('snapshot', 'get_last_log_idx')
            if t[0] == 'fld' and t[2] == sf and decided(st, 'eq', q('get_type'), self.enumv('msg_type', 'append_entries_request')) is not False:
                self.ob('term', ev.site)
                if not holds(st, 'eq', nn(q('get_last_log_idx')), nn(eng.peek(st, t[1], si))) and not eng.quiet:
                    self.bad('term', ev.site, 'the term of a snapshot may be sent for another index than the one it covers', st, ev.stack)
        if not eng.quiet and (ev.kind == 'wait' or ev.kind == 'call' and ev.name in ('state_machine::commit', 'log_store::entry_at', SEND)
                              or ev.kind == 'write' and ev.args[0] == THIS and ev.name != 'snp_in_progress_'):
            f = self.failed(eng, st)
            if f:
                self.bad('on', ev.site, 'the server goes on after ' + f, st, ev.stack)
                st.meta = ('', st.meta[1])

    def failed(self, eng, st):
        if st.meta[0]:
            return st.meta[0]
        for op, a, b in st.facts.lits():
            if op == 'eq':
                for x, y in ((a, b), (b, a)):
                    if y == C(0) and x[0] == 'sym' and x[1] == 'applied':
                        return 'a snapshot could not be applied'
        return ''

    def iter_end(self, eng, st, k):
        if not eng.quiet and self.failed(eng, st) and not st.ctl:
            self.bad('loop', self.endsite(), 'the server goes on after ' + self.failed(eng, st), st)
            st.meta = ('', ())

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        f = self.failed(eng, st)
        if f:
            self.bad('end', self.endsite(), 'the server goes on after ' + f, st)


RULES = [Reply, ReplyHandled, LeaderAppends, Forward, ForwardDone, FailStop, FailStopResults]
