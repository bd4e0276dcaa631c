"""The asio RPC layer: completion of requests (C21), containment of what the network sends (C20)."""
from ..rule import *
from ..raft import Entry, lam_entry, uncapture
from ..bufmodel import buf_model, bsize, bpos, BUF
from .service import captured, mentions

CLI = NS + 'asio_rpc_client'
SES = NS + 'rpc_session'
LIS = NS + 'asio_rpc_listener'
WD = ('sym', 'when_done')
RQ = ('sym', 'req')
MODELS = (buf_model, raft_model)


def lam_of(ev):
    return [a for a in ev.args if a is not None and a[0] == 'lam']


def is_op(ev):
    return ev.kind == 'ext' and 'async_' in ev.name.rsplit('::', 1)[-1] and bool(lam_of(ev))



class Chase(Rule):
    plain = True
    models = MODELS
    maythrow = False

    def boundary(self, eng, callee):
        return callee.get('q') == RS + '::process_req' or Rule.boundary(self, eng, callee)

    # buffers the object always has, with their sizes: {field: size}
    @property
    def fixed(self):
        return fixed_buffers(self.p, self.owner())

    def owner(self):
        return self.en.kind[-1] if self.en.kind[-1] in (CLI, SES, LIS) else None

    def prepare(self, eng, st, en):
        for f, n in self.fixed.items():
            b = eng.peek(st, THIS, f, '')
            st.set((b, '#size'), n)
            if en.kind[0] == 'start':
                st.set((b, '#pos'), C(0))
        for b, (n, p) in getattr(en, 'bufs', {}).items():
            st.set((b, '#size'), n)
            st.set((b, '#pos'), p)


def fixed_buffers(prog, cls):
    """{member: size} of the buffers the constructor allocates and nothing replaces"""
    if cls is None:
        return {}
    cache = prog.__dict__.setdefault('_fixbuf', {})
    if cls in cache:
        return cache[cls]
    out = {}

    class H(Rule):
        plain = True
        models = MODELS

        def record(self, eng, st, ev):
            if ev.kind == 'init' and ev.args[0] == THIS and ev.args[1] is not None and ev.args[1][0] == 'new' and ev.args[1][1] == BUF:
                n = st.store.get((ev.args[1], '#size'))
                if n is not None and n[0] == 'c':
                    out[ev.name] = n
    for f in prog.fns.values():
        if f['q'] == cls + '::' + short(cls) and f.get('body') is not None and f.get('inits') is not None:
            run_rule(prog, H(prog), Entry('ctor', f, THIS, tuple(('sym', 'arg_' + p['n']) for p in f['params']), kind=('ctor',)))
    cache[cls] = out
    for m in list(out):
        if replaced(prog, cls, m):
            del out[m]
    return out


def replaced(prog, cls, m):
    """something other than a constructor may put another object into the smart pointer member"""
    def walk(n, par):
        if isinstance(n, dict):
            if n.get('k') == 'mem' and n.get('f') == m and n.get('cls') == cls and \
                    not (par.get('k') == 'call' and par.get('name') in ('operator->', 'operator*', 'operator bool', 'get', 'operator==', 'operator!=')):
                return True
            return any(walk(v, n) for v in n.values())
        if isinstance(n, list):
            return any(walk(v, par) for v in n)
        return False
    return any(cls in f['q'] and f.get('body') is not None and walk(f['body'], {}) for f in prog.fns.values())


def chase(prog, first, tag, stop=None):
    """the entry points plus the handlers of every asynchronous operation they or those handlers start"""
    cache = prog.__dict__.setdefault('_chase', {})
    if tag in cache:
        return cache[tag]
    out, todo, seen, known = [], list(first), {}, {}
    owner = first[0].kind[-1]
    while todo:
        en = todo.pop(0)
        out.append(en)
        found = []

        class H(Chase):
            def boundary(self, eng, callee):
                return stop is not None and stop(callee) or Chase.boundary(self, eng, callee)

            def record(self, eng, st, ev):
                if is_op(ev):
                    s = eng.peek(st, THIS, 'socket_', 'asio::ip::tcp::socket')
                    o = st.store.get((s, '#open'), ('fld', s, '#open'))
                    o = 0 if st.facts.decide_eq(o, C(0)) is True else 1 if st.facts.decide_eq(o, C(0)) is False else None
                    lam = lam_of(ev)[-1]
                    bufs = {}
                    for t, ref, v in captured(prog, lam):
                        if v is not None and v[0] in ('new', 'sym') and (v, '#size') in st.store:
                            bufs[v] = (st.store[(v, '#size')], bpos(st, v))
                    found.append((ev, lam, s, o, bufs))
        run_rule(prog, H(prog), en)
        for ev, lam, s, o, bufs in found:
            name = ev.name.rsplit('::', 1)[-1]
            if 'connect' in name or 'accept' in name:
                o = None
            known.setdefault(lam[1], set()).add((s, o))
            if lam[1] in seen:
                continue
            f = prog.fns.get(lam[1])
            if f is None:
                raise AnalysisBroken('no body for the handler of ' + name)
            seen[lam[1]] = 1
            n = sum(1 for x in out + todo if x.name.startswith(name))
            vals = tuple(('sym', 'arg%d' % i) for i, p in enumerate(f['params']))
            was = dict(lam[2])
            lam = uncapture(lam, tag)
            caps = dict(lam[2])
            for c in prog.lamcaps.get(lam[1], []):
                if 'id' in c and c['id'] in caps:
                    t = c.get('t', '')
                    if t.startswith('std::function<'):
                        caps[c['id']] = WD
                    elif 'shared_ptr<' + NS + 'req_msg>' in t:
                        caps[c['id']] = RQ
            facts = [('ne', v, NULL) for v in set(caps.values()) if v in (WD, RQ)]
            lam = (lam[0], lam[1], tuple(caps.items()), lam[3])
            todo.append(lam_entry(prog, '%s handler%s' % (name, ' %d' % (n + 1) if n else ''), lam, vals, tuple(facts), kind=('handler', name, owner)))
            todo[-1].bufs = {caps[k]: bufs[v] for k, v in was.items() if v in bufs and all(x[0] == 'c' for x in bufs[v])}
            if len(out) + len(todo) > 40:
                raise AnalysisBroken('too many handlers')
    for en in out:
        k = known.get(en.fn['fn'])
        if k and len(k) == 1:
            s, o = k.pop()
            if o is not None:
                en.facts = tuple(en.facts) + (('eq', ('fld', s, '#open'), C(o)),)
    cache[tag] = out
    return out


def client(prog):
    f = prog.method(CLI, 'send')
    return chase(prog, [Entry('send', f, THIS, (RQ, WD), (('ne', RQ, NULL), ('ne', WD, NULL)), kind=('send', CLI))], 'cli')


def session(prog):
    f = prog.method(SES, 'start')
    return chase(prog, [Entry('start', f, THIS, (), kind=('start', SES))], 'ses')


def failed(st, en):
    """the operation whose handler this is failed: True / False / None"""
    if en.kind[0] != 'handler':
        return None
    return st.facts.decide_eq(('app', 'operator bool', ('sym', 'arg0')), C(1))


def reachable(st, v, seen):
    if v is None or v in seen:
        return
    seen.add(v)
    if not isinstance(v, tuple):
        return
    if v[0] in ('new', 'sym', 'valobj'):
        for k, x in st.store.items():
            if k[0] == v:
                reachable(st, x, seen)
    for y in v[1:]:
        if isinstance(y, tuple):
            reachable(st, y, seen)


class InFlight(Chase):
    """what every asynchronous operation of client and session must keep alive"""

    def op(self, eng, st, ev):
        lam = lam_of(ev)[-1]
        self.ob('op', ev.site)
        for t, ref, v in captured(self.p, lam):
            if ref:
                self.bad('dangling', ev.site, 'the handler refers to a variable that is gone when the operation ends', st, ev.stack)
        own = any(not ref and 'shared_ptr<' in t and v is not None and st.facts.decide_eq(v, THIS) is True for t, ref, v in captured(self.p, lam))
        if not own:
            self.bad('owner', ev.site, 'the handler of the operation does not keep the object it belongs to alive', st, ev.stack)
        for a in ev.args:
            if a is None or a[:2] != ('app', 'asiobuf'):
                continue
            d, n = a[2], a[3] if len(a) > 3 else None
            if d[:2] != ('app', 'data'):
                continue
            b, p = d[2], d[3]
            self.ob('buffer', ev.site)
            held = any(not ref and v == b and '_ptr<' in t and 'weak_ptr' not in t for t, ref, v in captured(self.p, lam))
            held = held or own and any(k[0] == THIS and v == b for k, v in st.store.items() if len(k) == 2)
            held = held or own and b[0] == 'fld' and b[1] == THIS and (THIS, b[2]) not in st.store
            if not held:
                self.bad('buffer', ev.site, 'the buffer the operation works on may be gone before the operation ends', st, ev.stack)
            if n is not None:
                size = bsize(st, b)
                if st.facts.decide_le(add(p, n), size) is not True:
                    self.bad('bounds', ev.site, 'the operation may reach past the end of its buffer', st, ev.stack)
                elif st.facts.decide_eq(add(p, n), size) is not True:
                    self.bad('partial', ev.site, 'the operation does not cover its whole buffer', st, ev.stack)


class Completion(InFlight):
    name = 'completion'
    doc = 'a request is queued under the lock and started by send only when it is alone; every handler either starts exactly one operation whose handler carries '           'the request on, or completes it exactly once, takes it off the queue and starts the next one if, judged under the same lock, there is one; it completes '           'with an error only after closing the connection and with a response only after a successful read; handlers keep client and buffers alive'
    must_see = ('queued', 'started', 'error', 'response', 'pop', 'op', 'buffer', 'next')
    vital = {'queued': 'send does not queue the request', 'started': 'send starts nothing', 'error': 'no failure is reported', 'response': 'no response is delivered',
             'pop': 'nothing takes a request off the queue', 'next': 'nothing starts the next request'}
    # meta: (own operations and completions, operations of the next request, pops, size after the change of the queue, queue version, completed)
    meta0 = (0, 0, 0, None, None, 0)
    Q = ('sub', THIS, 'requests_')

    @classmethod
    def entries(cls, prog, cb, ens):
        return client(prog)

    def split(self, eng, st):
        m = st.meta
        s = eng.peek(st, THIS, 'socket_', 'asio::ip::tcp::socket')
        o = st.store.get((s, '#open'), ('fld', s, '#open'))
        return m, m[3] is not None and st.facts.decide_eq(m[3], C(0)), failed(st, self.en), st.facts.decide_eq(o, C(0))

    def held(self, st):
        return any(x[0] == 'sub' and x[2] == 'requests_lock_' for x, _ in st.locks)

    def on_lock(self, eng, st, m, mode, t, e):
        if m[0] == 'sub' and m[2] == 'requests_lock_':
            eng.cbump(st, self.Q)
            s = dict(st.store)
            for x in ('#n', '#items'):
                s.pop((self.Q, x), None)
            st.store = s

    def event(self, eng, st, ev):
        if st.ctl:
            return
        own, nxt, pops, n, ver, done = st.meta
        if ev.kind == 'cont' and ev.args[0] == self.Q:
            if not self.held(st):
                self.bad('lock', ev.site, 'the queue of requests is used without its lock', st, ev.stack)
            if ev.name == 'push':
                self.ob('queued', ev.site)
                if self.en.kind[0] != 'send' or n is not None:
                    self.bad('requeue', ev.site, 'a request is queued twice', st, ev.stack)
                if not (mentions(ev.args[1], WD) and mentions(ev.args[1], RQ)):
                    r = set()
                    reachable(st, ev.args[1], r)
                    if WD not in r or RQ not in r:
                        self.bad('queued', ev.site, 'what is queued is not the request with its completion handler', st, ev.stack)
                st.meta = (own, nxt, pops, ev.args[2], ver, done)
            elif ev.name == 'pop':
                self.ob('pop', ev.site)
                # the request being completed is in the queue
                f = st.facts.add_le(C(1), eng.csize(st, self.Q))
                st.facts = f or st.facts
                if pops:
                    self.bad('pop', ev.site, 'one completion takes two requests off the queue', st, ev.stack)
                st.meta = (own, nxt, min(pops + 1, 2), sub(eng.csize(st, self.Q), C(1)), ('ver', st.n + 1), done)
            elif ev.name == 'front':
                # what is in the queue is there with a request and a handler
                el = ('app', 'elem', self.Q, eng.cver(st, self.Q), C(0))
                for t in (el,) + tuple(('fld', el, f) for f in ('first', 'second', 'req', 'req_', 'request', 'request_')):
                    f = st.facts.add_ne(t, NULL)
                    st.facts = f or st.facts
            elif ev.name in ('clear', 'swap', 'erase', 'assign'):
                self.bad('drop', ev.site, 'queued requests are dropped without being completed', st, ev.stack)
        elif is_op(ev):
            self.op(eng, st, ev)
            lam = lam_of(ev)[-1]
            r = set()
            for t, ref, v in captured(self.p, lam):
                reachable(st, v, r)
            if WD in r:
                self.ob('started', ev.site)
                if RQ not in r:
                    self.bad('mixed', ev.site, 'the operation carries on the completion handler without its request', st, ev.stack)
                if own or done:
                    self.bad('twice', ev.site, 'a request is started or completed twice', st, ev.stack)
                st.meta = (min(own + 1, 2), nxt, pops, n, ver, done)
            else:
                self.ob('next', ev.site)
                front = [v for v in r if isinstance(v, tuple) and v[:2] in (('app', 'elem'),) and v[2] == self.Q]
                if not pops or not front or any(v[4] != C(0) for v in front if len(v) > 4):
                    self.bad('carry', ev.site, 'the operation does not carry the request it is started for', st, ev.stack)
                if nxt:
                    self.bad('next-twice', ev.site, 'two operations are started for the next request', st, ev.stack)
                st.meta = (own, min(nxt + 1, 2), pops, n, ver, done)
        elif ev.kind == 'invoke' and ev.args[0] == WD:
            rsp, exc = ev.args[1], ev.args[2]
            if own or done:
                self.bad('twice', ev.site, 'a request is started or completed twice', st, ev.stack)
            st.meta = (own, nxt, pops, n, ver, 1)
            if self.held(st):
                self.bad('under-lock', ev.site, 'the completion handler runs under the lock: one that sends another request never returns', st, ev.stack)
            rn, en = st.facts.decide_eq(rsp, NULL), st.facts.decide_eq(exc, NULL)
            rn = False if rsp[0] == 'new' else rn
            en = False if exc[0] == 'new' else en
            if rn is True and en is False:
                self.ob('error', ev.site)
                s = eng.peek(st, THIS, 'socket_', 'asio::ip::tcp::socket')
                # a next request may have been started on the closed connection: it only resolves then
                o = st.store.get((s, '#open'), ('fld', s, '#open'))
                if st.facts.decide_eq(o, C(0)) is not True:
                    self.bad('open', ev.site, 'a request fails but the connection stays open: the next one would take up what is left of it', st, ev.stack)
            elif rn is False and en is True:
                self.ob('response', ev.site)
                if failed(st, self.en) is not False:
                    self.bad('garbage', ev.site, 'a response is reported although the operation may have failed', st, ev.stack)
                if self.en.kind[1] != 'async_read':
                    self.bad('unread', ev.site, 'a response is reported although none was read', st, ev.stack)
            else:
                self.bad('both', ev.site, 'a completion carries neither or both of response and error', st, ev.stack)
        elif ev.kind == 'ext' and ev.name.endswith('::close') and ev.args and ev.args[0][-1:] == ('socket_',):
            if nxt:
                self.bad('close-next', ev.site, 'the connection is closed after the next request was started on it', st, ev.stack)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            return
        own, nxt, pops, n, ver, done = st.meta
        alone = st.facts.decide_eq(n, C(0)) if n is not None else None
        if self.en.kind[0] == 'send':
            if n is None:
                return self.bad('unqueued', self.endsite(), 'send can return without having queued the request', st)
            if alone is None or alone is (own == 0):
                self.bad('start', self.endsite(), 'a request is started although another is under way, or is not started although it is alone', st)
            return
        if not own and not done:
            self.bad('lost', self.endsite(), 'the request is neither carried on nor completed', st)
        if done and not pops:
            self.bad('unpopped', self.endsite(), 'a completed request stays in the queue: nothing is ever sent again', st)
        if pops and not done:
            self.bad('popped', self.endsite(), 'a request that goes on is taken off the queue', st)
        if pops and (alone is None or alone is (nxt == 1)):
            self.bad('next', self.endsite(), 'the next request is not started although one is waiting, or started although none is', st)
        if nxt and not pops:
            self.bad('next', self.endsite(), 'the next request is started while this one is still under way', st)
        if failed(st, self.en) is True and own:
            self.bad('onward', self.endsite(), 'the request goes on although the operation failed', st)



LIMIT = 0x10000000


def from_net(t):
    return isinstance(t, tuple) and (t[:1] == ('app',) and isinstance(t[1], str) and t[1].startswith('get.') or any(from_net(x) for x in t[1:]))


def buffers_in(t, out):
    if isinstance(t, tuple):
        if t[:1] == ('app',) and isinstance(t[1], str) and t[1].startswith('get.'):
            out.add(t[2])
        for x in t[1:]:
            buffers_in(x, out)


class Untrusted(InFlight):
    """checks on sizes, indices and pointers shared by the rules of C20"""

    def sizes(self, eng, st, ev):
        """allocations and raw accesses whose extent comes from received bytes"""
        if ev.kind == 'buf' and ev.name == 'alloc' and from_net(ev.args[1]):
            self.ob('alloc', ev.site)
            n = ev.args[1]
            bs = set()
            buffers_in(n, bs)
            if st.facts.decide_le(C(0), n) is not True:
                # a negative size is refused by the allocation itself: it throws
                pass
            if st.facts.decide_le(n, C(LIMIT)) is not True and not any(st.facts.decide_le(n, sub(bsize(st, b), bpos(st, b))) is True or
                                                                      st.facts.decide_le(n, bsize(st, b)) is True for b in bs):
                self.bad('alloc', ev.site, 'memory is allocated for a size taken from the network that nothing bounds', st, ev.stack)
        elif ev.kind == 'cont' and ev.name in ('resize', 'assign', 'reserve') and len(ev.args) > 1 and ev.args[1] is not None and from_net(ev.args[1]):
            self.ob('resize', ev.site)
            bs = set()
            buffers_in(ev.args[1], bs)
            if st.facts.decide_le(ev.args[1], C(LIMIT)) is not True and not any(st.facts.decide_le(ev.args[1], bsize(st, b)) is True for b in bs):
                self.bad('alloc', ev.site, 'memory is allocated for a count taken from the network that nothing bounds', st, ev.stack)
        elif ev.kind == 'ext' and ev.name.rsplit('::', 1)[-1] in ('memcpy', 'memmove', 'write', 'read', 'copy', 'copy_n', 'memcmp') or \
                ev.kind == 'ext' and ev.name == 'asio::buffer':
            ptrs = [a for a in ev.args if a is not None and any(x[0][:2] == ('app', 'data') for x in lin(a)[1])]
            n = ev.args[-1]
            for a in ptrs:
                d = [x[0] for x in lin(a)[1] if x[0][:2] == ('app', 'data')]
                if len(d) != 1:
                    continue
                b, p = d[0][2], d[0][3]
                off = sub(a, d[0])
                self.ob('raw', ev.site)
                at = add(p, off)
                if st.facts.decide_le(C(0), n) is not True or st.facts.decide_le(C(0), at) is not True or \
                        st.facts.decide_le(add(at, n), bsize(st, b)) is not True:
                    self.bad('raw', ev.site, 'bytes outside the buffer may be touched: nothing relates the extent to what was received', st, ev.stack)
        elif ev.kind == 'strctor' and ev.args and ev.args[0] is not None and ev.args[0][:2] != ('app', 'c_str'):
            v = ev.args[0]
            if from_net(v) or st.facts.decide_eq(v, NULL) is True:
                self.ob('string', ev.site)
                if st.facts.decide_eq(v, NULL) is not False:
                    self.bad('string', ev.site, 'a string that was not terminated in the received data is used', st, ev.stack)


class Session(Untrusted):
    name = 'session'
    doc = 'each handler of a server-side connection either starts exactly one next operation or closes its connection and reports that, and nothing it reads makes it '           'throw out of the handler; sizes read from the network are bounded before memory is allocated, only known message types are passed on, and what arrives '           'after a failed operation is not used'
    must_see = ('alloc', 'type', 'stopped', 'next', 'op', 'buffer', 'raw')
    vital = {'stopped': 'nothing ends a connection', 'type': 'no message reaches the server'}
    maythrow = True
    # meta: (operations started, closed, reported)
    meta0 = (0, 0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        return session(prog)

    def split(self, eng, st):
        return st.meta, failed(st, self.en)

    def event(self, eng, st, ev):
        if st.ctl:
            return
        ops, closed, told = st.meta
        self.sizes(eng, st, ev)
        if is_op(ev):
            self.op(eng, st, ev)
            self.ob('next', ev.site)
            if ops or closed:
                self.bad('twice', ev.site, 'a second operation is started, or one on a closed connection', st, ev.stack)
            st.meta = (min(ops + 1, 2), closed, told)
        elif ev.kind == 'ext' and ev.name.endswith('::close'):
            self.ob('stopped', ev.site)
            st.meta = (ops, 1, told)
            if ops:
                self.bad('both', ev.site, 'a connection is closed after its next operation was started', st, ev.stack)
        elif ev.kind == 'invoke' and ev.args[0] == self.g(eng, st, 'callback_'):
            st.meta = (ops, closed, 1)
        elif ev.kind == 'call' and ev.name == 'raft_server::process_req':
            if failed(st, self.en) is not False:
                self.bad('garbage', ev.site, 'a request is processed although reading it may have failed', st, ev.stack)
            t = self.mf(eng, st, 'req_msg', ev.args[1], 'get_type')
            self.ob('type', ev.site)
            check_type(self, st, t, ev)
        elif ev.kind == 'buf' and ev.name.startswith('get:') and failed(st, self.en) is not False and self.en.kind[0] == 'handler':
            self.bad('garbage', ev.site, 'received bytes are used although receiving them may have failed', st, ev.stack)

    def final(self, eng, st):
        if not st.ctl:
            return
        ops, closed, told = st.meta
        if st.ctl[0] == 'exc':
            return self.bad('escape', self.endsite(), 'an exception leaves the handler: it ends a worker of the whole service, not just this connection', st)
        if st.ctl[0] != 'done':
            return
        if not ops and not closed:
            self.bad('stuck', self.endsite(), 'a connection is neither continued nor closed', st)
        if closed and not told and st.facts.decide_eq(self.g(eng, st, 'callback_'), NULL) is not True:
            self.bad('untold', self.endsite(), 'a closed connection is not reported to the listener', st)
        if failed(st, self.en) is True and ops:
            self.bad('onward', self.endsite(), 'a connection goes on after a failed operation', st)


def check_type(rule, st, t, ev):
    mt = rule.p.enum(NS + 'msg_type')
    lo, hi = min(mt.values()), max(mt.values())
    ok = st.facts.decide_le(C(lo), t) is True and st.facts.decide_le(t, C(hi)) is True
    if not ok and any(st.facts.decide_eq(t, C(v)) is True for v in mt.values()):
        ok = True
    if not ok:
        rule.bad('type', ev.site, 'a message type taken from the network is used without being checked', st, ev.stack)


class ResponseType(Chase):
    name = 'response-type'
    doc = 'a response is handed on only with a message type that exists'
    must_see = ('type',)
    vital = {'type': 'no response is delivered'}

    @classmethod
    def entries(cls, prog, cb, ens):
        return client(prog)

    def event(self, eng, st, ev):
        if st.ctl:
            return
        if ev.kind == 'throw' and ev.args and ev.args[0] in getattr(self.en, 'bufs', {}):
            self.bad('escape', ev.site, 'reading the response can throw out of the handler', st, ev.stack)
        if ev.kind != 'invoke' or ev.args[0] != WD:
            return
        if st.facts.decide_eq(ev.args[1], NULL) is not True:
            self.ob('type', ev.site)
            check_type(self, st, self.mf(eng, st, 'resp_msg', ev.args[1], 'get_type'), ev)



class Accept(InFlight):
    name = 'accept'
    doc = 'whatever happens to one connection, the listener goes on accepting others until it is closed: every handler of an accept starts the next one, a failed '           'accept starts no session'
    must_see = ('op', 'session')
    vital = {'op': 'nothing accepts connections', 'session': 'an accepted connection is not served'}
    # meta: (accepts, sessions)
    meta0 = (0, 0)

    @classmethod
    def entries(cls, prog, cb, ens):
        f = prog.method(LIS, 'listen')
        return chase(prog, [Entry('listen', f, THIS, (('sym', 'handler'),), (('ne', ('sym', 'handler'), NULL),), kind=('start', LIS))], 'lis',
                     lambda c: c.get('cls') == SES and c['name'] == 'start')

    def boundary(self, eng, callee):
        return callee.get('cls') == SES and callee['name'] == 'start' or Chase.boundary(self, eng, callee)

    def split(self, eng, st):
        return st.meta, failed(st, self.en), st.facts.decide_eq(self.open(eng, st), C(0))

    def open(self, eng, st):
        return ('app', 'is_open', eng.peek(st, THIS, 'acceptor_', 'asio::ip::tcp::acceptor'))

    def event(self, eng, st, ev):
        if st.ctl:
            return
        a, s = st.meta
        if is_op(ev) and 'accept' in ev.name:
            self.op(eng, st, ev)
            sock = ev.args[1]
            ses = sock[1] if sock is not None and sock[0] in ('sub', 'fld') else None
            if ses is not None and not any(not r and v == ses and 'shared_ptr<' in t for t, r, v in captured(self.p, lam_of(ev)[-1])):
                self.bad('session', ev.site, 'the session an accept works on is gone before the accept ends', st, ev.stack)
            if a:
                self.bad('twice', ev.site, 'two accepts are started at once', st, ev.stack)
            st.meta = (min(a + 1, 2), s)
        elif ev.kind == 'call' and ev.name == 'rpc_session::start':
            self.ob('session', ev.site)
            if failed(st, self.en) is not False:
                self.bad('session', ev.site, 'a session is started for a connection that was not accepted', st, ev.stack)
            st.meta = (a, min(s + 1, 2))
            if s:
                self.bad('session', ev.site, 'a session is started twice', st, ev.stack)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            return
        a, s = st.meta
        if not a and st.facts.decide_eq(self.open(eng, st), C(0)) is not True:
            self.bad('deaf', self.endsite(), 'the listener stops accepting connections although it is open', st)
        if self.en.kind[0] == 'handler' and failed(st, self.en) is False and not s:
            self.bad('unserved', self.endsite(), 'an accepted connection is not served', st)


class ClientRaw(Untrusted):
    name = 'client-raw'
    doc = 'what the client hands to the socket lies in the bytes of its buffers'
    must_see = ('raw',)
    meta0 = 0

    @classmethod
    def entries(cls, prog, cb, ens):
        return client(prog)

    def split(self, eng, st):
        return st.meta, failed(st, self.en)

    def event(self, eng, st, ev):
        if not st.ctl and ev.kind == 'ext':
            self.sizes(eng, st, ev)


class Decoders(Untrusted):
    name = 'decoders'
    doc = 'decoding takes nothing from outside the received bytes: sizes read are bounded by them before memory is allocated or copied, every element of a counted list '           'consumes input, and unterminated strings are refused'
    must_see = ('raw', 'string', 'element')
    meta0 = 0

    @classmethod
    def entries(cls, prog, cb, ens):
        out = []
        for c in ('srv_config', 'cluster_config', 'snapshot', 'snapshot_sync_req', 'log_entry'):
            out.append(Entry(c + '::deserialize', prog.method(NS + c, 'deserialize'), THIS, (('sym', 'buf'),), kind=('decode', None)))
        out.append(Entry('fs_log_store::apply_pack', prog.method(NS + 'fs_log_store', 'apply_pack'), THIS, (('sym', 'index'), ('sym', 'buf')), kind=('pack', None)))
        return out

    def boundary(self, eng, callee):
        return callee.get('cls') == BUF

    def split(self, eng, st):
        return st.meta

    def event(self, eng, st, ev):
        if st.ctl:
            return
        if ev.kind == 'buf' and ev.name == 'alloc' and self.en.kind[0] == 'pack' and not mentions(ev.args[1], ('sym', 'buf')):
            return      # sizes read from the store's own files
        self.sizes(eng, st, ev)
        if ev.kind == 'buf' and ev.name.startswith('get:') and ev.args[0] == ('sym', 'buf'):
            st.meta = 1
        elif ev.kind == 'cont' and ev.name == 'push' and self.en.kind[0] == 'decode':
            self.ob('element', ev.site)
            if not st.meta:
                self.bad('element', ev.site, 'a counted element is added without consuming input: the count alone bounds how many', st, ev.stack)
            st.meta = 0


class Handlers(Rule):
    name = 'handlers'
    doc = 'a message of any type and content indexes neither its list of entries nor a table of names out of range'
    must_see = ('table', 'entries')
    logs = True

    def wants(self, en):
        return en.kind[0] in ('req', 'resp_handler_', 'ex_resp_handler_')

    def event(self, eng, st, ev):
        if st.ctl:
            return
        if ev.kind == 'gidx':
            self.ob('table', ev.site)
            i, n = ev.args
            if n[1] > 0 and not (st.facts.decide_le(C(0), i) is True and st.facts.decide_le(add(i, C(1)), n) is True):
                self.bad('table', ev.site, 'a table is indexed with a value from a message that may be out of range', st, ev.stack)
        elif ev.kind == 'cont' and ev.name in ('operator[]', 'front', 'back', 'deref') and ev.args[0] == ('sub', REQ, 'log_entries_'):
            self.ob('entries', ev.site)
            i = ev.args[1] if len(ev.args) > 1 else C(0)
            n = eng.csize(st, ev.args[0])
            if st.facts.decide_le(add(i, C(1)), n) is not True:
                self.bad('entries', ev.site, 'an entry of the request is used although the request may not have that many', st, ev.stack)


RULES = [Completion, Session, ResponseType, Accept, Decoders, Handlers]
