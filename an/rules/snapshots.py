"""C10, C11: making, compacting to, sending and installing snapshots."""
from ..rule import *
from ..engine import subterms
from ..raft import Entry
from .membership import ConfBase, SAVEC


class SnapBase(ConfBase):
    def sf(self, eng, st, s, g):
        return nn(eng.peek(st, s, self.getf('snapshot', g)))

    def sidx(self, eng, st, s):
        return self.sf(eng, st, s, 'get_last_log_idx')

    def rf(self, eng, st, r, g):
        return eng.peek(st, r, self.getf('snapshot_sync_req', g))

    def reqsnap(self, t):
        """the sync request a snapshot term belongs to"""
        if t[0] == 'fld' and t[2] == self.getf('snapshot_sync_req', 'get_snapshot'):
            return t[1]
        return None

    def result_ok(self, eng, st):
        """the completion callback was told the snapshot is there"""
        return decided(st, 'eq', ('sym', 'result'), C(1)) is True and decided(st, 'eq', ('sym', 'err'), NULL) is True

    def isreq(self, en=None):
        return (en or self.en).kind[0] == 'req'


class Compact(SnapBase):
    name = 'snap-compact'
    doc = 'the log is compacted only (a) in the completion of a snapshot that succeeded, up to its index less the reserved ' \
          'items and not below the start, or (b) after the last block of a newer received snapshot was saved, up to its index'
    must_see = ('own', 'received')
    meta0 = None        # snapshot whose block was saved in this step

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name == 'state_machine::save_snapshot_data':
            st.meta = ev.args[1]
        elif ev.kind == 'call' and ev.name == 'log_store::compact':
            i = ev.args[1]
            if self.en.kind[0] == 'snapdone':
                self.ob('own', ev.site)
                if not self.result_ok(eng, st):
                    self.bad('unsure', ev.site, 'the log is compacted although the snapshot may not have been completed', st, ev.stack)
                    return
                s = self.captured(st)
                if s is None:
                    return
                res = nn(eng.peek(st, eng.peek(st, eng.peek(st, THIS, 'ctx_'), 'params_'), 'reserved_log_items_'))
                if not holds(st, 'le', add(i, res), self.sidx(eng, st, s)):
                    self.bad('beyond', ev.site, 'the log may be compacted beyond the snapshot less the reserved items (up to %s)'
                             % show(i), st, ev.stack)
                if not holds(st, 'le', self.start(eng, st), add(i, C(1))):
                    self.bad('below', ev.site, 'the log may be compacted to an index below its start', st, ev.stack)
                return
            if self.isreq():
                self.ob('received', ev.site)
                s = st.meta
                r = self.reqsnap(s) if s else None
                if r is None:
                    self.bad('nosnapshot', ev.site, 'the log is compacted although no snapshot was received', st, ev.stack)
                    return
                if decided(st, 'eq', self.rf(eng, st, r, 'is_done'), C(1)) is not True:
                    self.bad('partial', ev.site, 'the log is compacted although the snapshot may not be complete', st, ev.stack)
                if not holds(st, 'eq', i, self.sidx(eng, st, s)):
                    self.bad('index', ev.site, 'the log is compacted to %s instead of the received snapshot\'s index' % show(i), st, ev.stack)
                if not holds(st, 'lt', nn(('fld', THIS, 'sm_commit_index_')), self.sidx(eng, st, s)):
                    self.bad('old', ev.site, 'the log is compacted to a snapshot that may be older than what was applied', st, ev.stack)
                return
            self.bad('elsewhere', ev.site, 'the log is compacted outside snapshot completion and installation', st, ev.stack)

    def captured(self, st):
        for k, v in (self.en.extra or {}).items():
            if v is not None and v[0] == 'sym' and v[1].startswith('snp:snapshot'):
                return v
        return self.eng and st.store.get((THIS, 'last_snapshot_'))


class SnapMake(SnapBase):
    name = 'snap-make'
    doc = 'a snapshot is asked for only for an applied index, with the term of that entry and a configuration not newer than ' \
          'it (or the last snapshot\'s), by the step that took the in-progress flag; older configurations are looked up only ' \
          'by their predecessor index; the flag is free again or handed over when the step ends'
    must_see = ('made', 'taken')
    # meta: 0 nothing, 1 flag taken, 3 the same and the configuration in force is no more in the log, 2 handed over
    meta0 = 0
    hard = frozenset(('snp_in_progress_',))
    cost = 2

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def split(self, eng, st):
        """which of the configurations at hand are known to be old enough"""
        if st.meta not in (1, 3):
            return ()
        lf = self.getf('cluster_config', 'get_log_idx')
        old = ('fld', self.g(eng, st, 'last_snapshot_'), self.getf('snapshot', 'get_last_config'))
        i = self.g(eng, st, 'sm_commit_index_')
        vs = set()
        for op, a, b in st.facts.lits():
            for t in (a, b):
                for x, _ in lin(t)[1]:
                    if x[0] == 'fld' and x[2] == lf:
                        vs.add(x[1])
        known, last = set(), False
        for f in st.frames:
            for v in f.values():
                if v in vs:
                    known.add(str(decided(st, 'le', ('fld', v, lf), i)))
                elif v == old:
                    last = True
        return (tuple(sorted(known)), last)

    def settle(self, eng, st, site):
        if st.meta in (1, 3) and decided(st, 'eq', self.g(eng, st, 'snp_in_progress_'), C(0)) is not True:
            self.bad('stuck', site, 'no snapshot is being made but the in-progress flag stays set', st)
        st.meta = 0

    def begin(self, en):
        self.own = set()

    def loop_in(self, eng, st, k):
        if st.meta == 0:
            self.own.add(k)

    def iter_end(self, eng, st, k):
        if not eng.quiet and k in self.own:
            self.settle(eng, st, self.endsite())

    def final(self, eng, st):
        if st.ctl[0] in ('done', 'exc'):
            self.settle(eng, st, self.endsite())

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'snp_in_progress_' and ev.args[0] == THIS:
            if decided(st, 'eq', ev.args[1], C(0)) is True:
                if st.meta not in (1, 3) and self.en.kind[0] != 'snapdone':
                    self.bad('freed', ev.site, 'the in-progress flag is cleared by a step that does not own it', st, ev.stack)
                return
            self.ob('taken', ev.site)
            if decided(st, 'eq', ev.args[2], C(0)) is True:
                st.meta = 1
            elif decided(st, 'eq', ev.args[2], C(1)) is not True:
                self.bad('taken', ev.site, 'the in-progress flag is taken without a test that it was free', st, ev.stack)
        elif ev.kind == 'call' and ev.name == 'log_store::entry_at' and self.en.kind[0] == 'thread':
            i = st.facts.canon(ev.args[1])
            pf = self.getf('cluster_config', 'get_prev_log_idx')
            if not (i[0] == 'fld' and i[2] == pf) and not holds(st, 'eq', i, self.g(eng, st, 'sm_commit_index_')):
                if not any(x[0] == 'fld' and x[2] == pf and holds(st, 'eq', x, i) for x in self.prevs(st, pf)):
                    self.bad('lookup', ev.site, 'an entry is read at %s, which is neither the entry being applied nor the '
                             'predecessor of a configuration' % show(i), st, ev.stack)
            elif self.newer(eng, st, i, pf) is False:
                self.bad('passed', ev.site, 'a configuration is passed over for its predecessor although it may be the one in '
                         'force at the index of the snapshot', st, ev.stack)
        elif ev.kind == 'call' and ev.name == 'state_machine::create_snapshot':
            self.ob('made', ev.site)
            s = ev.args[1]
            if st.meta not in (1, 3):
                self.bad('unowned', ev.site, 'a snapshot is started without the in-progress flag', st, ev.stack)
            gone, st.meta = st.meta == 3, 2
            i = self.sidx(eng, st, s)
            if not holds(st, 'le', i, self.g(eng, st, 'sm_commit_index_')):
                self.bad('ahead', ev.site, 'a snapshot is made for %s, which may not have been applied' % show(i), st, ev.stack)
            t = self.sf(eng, st, s, 'get_last_log_term')
            lo = self.log(eng, st)
            ok = t[0] == 'app' and t[1] == 'term_at' and t[2] == lo and holds(st, 'eq', t[4], i)
            if not ok and t[0] == 'fld' and t[2] == self.getf('log_entry', 'get_term') and t[1][0] == 'app' and t[1][1] == 'entry_at':
                ok = t[1][2] == lo and holds(st, 'eq', t[1][4], i)
            if not ok:
                self.bad('term', ev.site, 'the term of the snapshot is not that of the entry at its index', st, ev.stack)
            c = self.sf(eng, st, s, 'get_last_config')
            ls = self.g(eng, st, 'last_snapshot_')
            if c == eng.peek(st, ls, self.getf('snapshot', 'get_last_config')):
                if not gone:
                    self.bad('fallback', ev.site, 'the configuration of the last snapshot is used although the one in force may '
                             'be known or in the log', st, ev.stack)
                return
            if not holds(st, 'le', self.cidx(eng, st, c), i):
                self.bad('config', ev.site, 'the configuration in the snapshot may be newer than its index', st, ev.stack)

    def norm(self, eng, st):
        if st.meta == 1:
            pf = self.getf('cluster_config', 'get_prev_log_idx')
            for x in self.prevs(st, pf):
                if holds(st, 'lt', nn(x), self.start(eng, st)) and self.newer(eng, st, x, pf):
                    st.meta = 3
                    return

    def newer(self, eng, st, i, pf):
        """is the configuration whose predecessor index this is newer than the applied position? None: no such"""
        sm = self.g(eng, st, 'sm_commit_index_')
        r = None
        for x in ({i} | self.prevs(st, pf)):
            if x[0] == 'fld' and x[2] == pf and (x == i or holds(st, 'eq', x, i)):
                if holds(st, 'lt', sm, nn(eng.peek(st, x[1], self.getf('cluster_config', 'get_log_idx')))):
                    return True
                r = False
        return r

    def prevs(self, st, pf):
        out = set()
        for op, a, b in st.facts.lits():
            for t in (a, b):
                for x in subterms(t):
                    if x[0] == 'fld' and x[2] == pf:
                        out.add(x)
        return out


class SnapDone(SnapBase):
    name = 'snap-done'
    doc = 'however the attempt to make a snapshot ends, its completion leaves the in-progress flag clear; the snapshot becomes ' \
          'the last one only if the state machine reported success'
    must_see = ('end', 'last')
    meta0 = 0

    def wants(self, en):
        return en.kind[0] == 'snapdone'

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.name == 'last_snapshot_' and ev.args[0] == THIS:
            self.ob('last', ev.site)
            st.meta = 1
            if not self.result_ok(eng, st):
                self.bad('failed', ev.site, 'a snapshot that may have failed becomes the last snapshot', st, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] in ('done', 'exc'):
            self.ob('end', self.endsite())
            if decided(st, 'eq', self.g(eng, st, 'snp_in_progress_'), C(0)) is not True:
                self.bad('stuck', self.endsite(), 'a completed attempt leaves the in-progress flag set', st)


class SnapLast(SnapBase):
    name = 'snap-last'
    doc = 'outside the constructor the last snapshot is replaced only by a completed one or by one that was just applied'
    must_see = ('last',)
    meta0 = None

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor', 'snapdone')

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name == 'state_machine::apply_snapshot':
            st.meta = ev.args[1]
        elif ev.kind == 'write' and ev.name == 'last_snapshot_' and ev.args[0] == THIS:
            self.ob('last', ev.site)
            if st.meta is None:
                self.bad('unapplied', ev.site, 'the last snapshot is replaced by one that was not applied', st, ev.stack)
                return
            v = ev.args[1]
            for g in ('get_last_log_idx', 'get_last_log_term'):
                if not holds(st, 'eq', self.sf(eng, st, v, g), self.sf(eng, st, st.meta, g)):
                    self.bad('other', ev.site, 'the last snapshot does not describe the one that was applied (%s)' % g[4:], st, ev.stack)


class ConfigChain(Rule):
    name = 'config-chain'
    doc = 'giving a configuration a new log index remembers its old one as that of its predecessor'
    must_see = ('moved',)
    plain = True
    needs_raft = False

    @classmethod
    def entries(cls, prog, cb, ens):
        return [Entry('set_log_idx', prog.method(NS + 'cluster_config', 'set_log_idx'), THIS, (('sym', 'idx'),), kind=('set',))]

    def final(self, eng, st):
        if st.ctl[0] not in ('done', 'ret'):
            return
        site = self.endsite()
        self.ob('moved', site)
        f, p = self.getf('cluster_config', 'get_log_idx'), self.getf('cluster_config', 'get_prev_log_idx')
        if not holds(st, 'eq', eng.peek(st, THIS, f), ('sym', 'idx')):
            self.bad('index', site, 'the configuration does not get the index it is given', st)
        if not holds(st, 'eq', eng.peek(st, THIS, p), ('fld', THIS, f)) and not holds(st, 'eq', ('fld', THIS, f), ('sym', 'idx')):
            self.bad('lost', site, 'the index of the previous configuration is lost', st)


# ------------------------------------------------------------------- transfer
class SnapInstall(SnapBase):
    name = 'snap-install'
    doc = 'a received block is saved with its own snapshot, offset and data only if the request is not from an older term ' \
          '(or the server is joining) and the snapshot is newer than what was applied; configuration, applied and commit ' \
          'position and last snapshot are set from the snapshot after its last block was applied successfully, all of them ' \
          'before the block is acknowledged; the acknowledgement is the end of the saved block'
    must_see = ('saved', 'applied', 'ack')
    # meta: (snapshot saved, result of applying | None, fields set)
    meta0 = (None, None, frozenset())
    hard = frozenset(('accepted_',))

    def wants(self, en):
        return en.name == 'request:install_snapshot_request'

    def split(self, eng, st):
        return (decided(st, 'eq', self.g(eng, st, 'catching_up_'), C(1)),)

    def applied(self, st):
        return st.meta[1] is not None and decided(st, 'eq', st.meta[1], C(1)) is True

    def event(self, eng, st, ev):
        snp, res, done = st.meta
        if ev.kind == 'call' and ev.name == 'state_machine::save_snapshot_data':
            self.ob('saved', ev.site)
            s, off, data = ev.args[1:4]
            r = self.reqsnap(s)
            st.meta = (s, None, frozenset())
            if r is None or off != self.rf(eng, st, r, 'get_offset') or data != self.rf(eng, st, r, 'get_data'):
                self.bad('block', ev.site, 'the block is not saved with the snapshot, offset and data it came with', st, ev.stack)
                return
            b = r[2][1] if r[0] == 'new' and isinstance(r[2], tuple) else None
            ok = b is not None and any(x == ('sub', REQ, self.getf('req_msg', 'log_entries')) for x in subterms(b))
            if not ok:
                self.bad('foreign', ev.site, 'the block saved is not the one in the request', st, ev.stack)
            if decided(st, 'eq', self.g(eng, st, 'catching_up_'), C(1)) is not True and \
                    not holds(st, 'le', self.term(eng, st), nn(eng.peek(st, REQ, self.getf('req_msg', 'get_term')))):
                self.bad('stale', ev.site, 'a snapshot from an older term may be accepted', st, ev.stack)
            if not holds(st, 'lt', nn(self.g(eng, st, 'sm_commit_index_')), self.sidx(eng, st, s)):
                self.bad('old', ev.site, 'a snapshot not newer than what was applied may be accepted', st, ev.stack)
        elif ev.kind == 'call' and ev.name == 'state_machine::apply_snapshot':
            self.ob('applied', ev.site)
            if snp is None or ev.args[1] != snp:
                self.bad('unsaved', ev.site, 'a snapshot is applied of which no block was saved in this step', st, ev.stack)
                return
            r = self.reqsnap(snp)
            if r is not None and decided(st, 'eq', self.rf(eng, st, r, 'is_done'), C(1)) is not True:
                self.bad('early', ev.site, 'a snapshot is applied before its last block', st, ev.stack)
            st.meta = (snp, ('pending',), done)
        elif ev.kind == 'write' and ev.args[0] == THIS and ev.name in ('config_', 'sm_commit_index_', 'quick_commit_idx_', 'last_snapshot_'):
            ok = self.applied_now(eng, st)
            if not ok:
                self.bad('early-' + ev.name, ev.site, '%s is changed before the snapshot was applied successfully' % ev.name, st, ev.stack)
                return
            v = ev.args[1]
            if ev.name == 'config_':
                good = v == eng.peek(st, snp, self.getf('snapshot', 'get_last_config'))
            elif ev.name == 'last_snapshot_':
                good = v == snp or holds(st, 'eq', self.sidx(eng, st, v), self.sidx(eng, st, snp))
            else:
                good = holds(st, 'eq', v, self.sidx(eng, st, snp))
            if not good:
                self.bad('wrong-' + ev.name, ev.site, '%s is not set to what the applied snapshot says' % ev.name, st, ev.stack)
            st.meta = (snp, st.meta[1], done | {ev.name})
        elif ev.kind == 'call' and ev.name == SAVEC:
            if self.applied_now(eng, st):
                if self.cidx(eng, st, ev.args[1]) != self.cidx(eng, st, eng.peek(st, snp, self.getf('snapshot', 'get_last_config'))):
                    self.bad('wrong-saved', ev.site, 'the configuration saved is not that of the applied snapshot', st, ev.stack)
                    return
                st.meta = (snp, st.meta[1], done | {SAVEC})
        elif ev.kind == 'write' and ev.name == 'accepted_' and decided(st, 'eq', ev.args[1], C(1)) is not False:
            self.ob('ack', ev.site)
            if snp is None:
                self.bad('noblock', ev.site, 'a block is acknowledged that was not saved', st, ev.stack)
                return
            r = self.reqsnap(snp)
            if r is None:
                return
            if decided(st, 'eq', self.rf(eng, st, r, 'is_done'), C(0)) is not True:
                if not self.applied_now(eng, st):
                    self.bad('unapplied', ev.site, 'the last block is acknowledged although the snapshot was not applied', st, ev.stack)
                    return
                for w in ('config_', 'sm_commit_index_', 'quick_commit_idx_', 'last_snapshot_', SAVEC):
                    if w not in done:
                        self.bad('incomplete-' + w, ev.site, 'the last block is acknowledged without %s brought up to the snapshot' % w, st, ev.stack)

    def applied_now(self, eng, st):
        if st.meta[1] is None:
            return False
        # the fresh result of apply_snapshot
        for op, a, b in st.facts.lits():
            if op == 'eq':
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'sym' and x[1] == 'applied' and y == C(1):
                        return True
        return st.meta[1] == ('yes',)

    def norm(self, eng, st):
        if st.meta[1] == ('pending',) and self.applied_now(eng, st):
            st.meta = (st.meta[0], ('yes',), st.meta[2])

    def final(self, eng, st):
        if st.ctl[0] != 'done':
            return
        snp = st.meta[0]
        v = st.ret if hasattr(st, 'ret') else None
        if snp is None:
            return
        r = self.reqsnap(snp)
        if r is None:
            return
        acc = self.getf('resp_msg', 'get_accepted')
        nf = self.getf('resp_msg', 'get_next_idx')
        data = self.rf(eng, st, r, 'get_data')
        size = st.store.get((data, '#size')) or ('app', 'bufsize', data)
        for (o, f), x in list(st.store.items()) if False else [(k, w) for k, w in st.store.items() if len(k) == 2]:
            if f == acc and o[0] == 'new' and o[1] == NS + 'resp_msg' and decided(st, 'eq', x, C(0)) is not True:
                if not holds(st, 'eq', eng.peek(st, o, nf), add(self.rf(eng, st, r, 'get_offset'), size)):
                    self.bad('ackpos', self.endsite(), 'the position acknowledged (%s) is not the end of the saved block'
                             % show(eng.peek(st, o, nf)), st)


class SnapSend(SnapBase):
    name = 'snap-send'
    doc = 'a snapshot block put into a request is read completely from the snapshot in progress for that peer at the ' \
          'acknowledged offset, does not reach past its end, and is marked last exactly when it reaches the end; a new ' \
          'transfer starts at offset zero'
    must_see = ('block', 'start')
    # meta: reads done: (snapshot, offset, buffer, result)
    meta0 = None

    def begin(self, en):
        self.hard = frozenset(('#size', self.getf('snapshot_sync_req', 'is_done')))

    def wants(self, en):
        return en.kind[0] not in ('ctor', 'dtor')

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name == 'state_machine::read_snapshot_data':
            st.meta = (ev.args[1], ev.args[2], ev.args[3])
        elif ev.kind == 'write' and ev.name == 'snp_sync_ctx_' and ev.args[1][0] == 'new':
            self.ob('start', ev.site)
            c = ev.args[1]
            if not holds(st, 'eq', eng.peek(st, c, self.getf('snapshot_sync_ctx', 'get_offset')), C(0)):
                self.bad('start', ev.site, 'a snapshot transfer does not start at offset 0', st, ev.stack)
        elif ev.kind == 'cont' and ev.name == 'push' and ev.args[0][0] == 'sub' and \
                ev.args[0][2] == self.getf('req_msg', 'log_entries'):
            x = ev.args[1]
            r = self.content(eng, st, x)
            if r is None or r[0] != 'new' or r[1] != NS + 'snapshot_sync_req':
                return
            self.ob('block', ev.site)
            snp, off, data = self.rf(eng, st, r, 'get_snapshot'), self.rf(eng, st, r, 'get_offset'), self.rf(eng, st, r, 'get_data')
            done = self.rf(eng, st, r, 'is_done')
            if st.meta is None or st.meta[0] != snp or not holds(st, 'eq', st.meta[1], off) or st.meta[2] != data:
                self.bad('read', ev.site, 'the block sent is not what was read from the snapshot at that offset', st, ev.stack)
                return
            size = st.store.get((data, '#size'))
            if size is None:
                return
            if not any(l[0] == 'le' and l[1] == size and l[2][0] == 'sym' and l[2][1] == 'read_snapshot_data' or
                       l[0] == 'eq' and ('sym', 'read_snapshot_data') in (l[1][:2], l[2][:2]) and size in l[1:]
                       for l in st.facts.lits()):
                if not self.read_all(st, size):
                    self.bad('short', ev.site, 'a block may be sent of which less was read than its size', st, ev.stack)
            total = self.sf(eng, st, snp, 'size')
            if not holds(st, 'le', add(off, size), total):
                self.bad('past', ev.site, 'the block may reach past the end of the snapshot', st, ev.stack)
            at_end = decided(st, 'le', total, add(off, size))
            d = decided(st, 'eq', done, C(1))
            if at_end is None or d is None or at_end != d:
                if not (at_end is None and d is None):
                    self.bad('last', ev.site, 'the mark of the last block may disagree with whether the block reaches the end', st, ev.stack)
                else:
                    self.bad('last', ev.site, 'whether the block is marked last does not depend on whether it reaches the end', st, ev.stack)
            q = ev.args[0][1]
            dst = eng.peek(st, q, self.getf('req_msg', 'get_dst'))
            p = self.peer_of(eng, st, dst)
            if p is None:
                return
            c = eng.peek(st, p, self.getf('peer', 'get_snapshot_sync_ctx'))
            if snp != eng.peek(st, c, self.getf('snapshot_sync_ctx', 'get_snapshot')):
                self.bad('other', ev.site, 'the block sent is not of the snapshot in progress for that peer', st, ev.stack)
            if not holds(st, 'eq', off, eng.peek(st, c, self.getf('snapshot_sync_ctx', 'get_offset'))):
                self.bad('offset', ev.site, 'the block sent does not start at the offset acknowledged by that peer', st, ev.stack)

    def narrow(self, eng, st, v, e):
        fs = (self.getf('snapshot', 'size'), self.getf('snapshot_sync_ctx', 'get_offset'))
        def big(t):
            return any(x[0] == 'fld' and x[2] in fs for x in subterms(t))
        if big(v) and v[0] != 'app':
            for op, a, b in st.facts.lits():
                for t in (a, b):
                    for x, _ in lin(t)[1]:
                        if not big(x) and holds(st, 'le', v, x):
                            return
            self.bad('narrow', eng.site(e), 'the amount left of a snapshot is cut down to %s' % e['t'], st)

    def read_all(self, st, size):
        for op, a, b in st.facts.lits():
            for t in (a, b):
                for x in subterms(t):
                    if x[0] == 'sym' and x[1] == 'read_snapshot_data':
                        if holds(st, 'le', size, x):
                            return True
        return False

    def peer_of(self, eng, st, dst):
        """peer whose configured id is dst"""
        if dst[0] == 'fld' and dst[1][0] == 'fld' and dst[1][2] == 'config_':
            return dst[1][1]
        return None


class SnapAck(SnapBase):
    name = 'snap-ack'
    doc = 'on an accepted block the acknowledged offset moves to the position in the response, or, when that reaches the ' \
          'snapshot\'s size, the peer is taken to store exactly the snapshot and the transfer ends; a refusal changes nothing'
    must_see = ('offset', 'complete')
    # meta: 1 when progress was recorded
    meta0 = (0, None)
    cost = 2

    def wants(self, en):
        return en.kind[0] in ('resp_handler_', 'ex_resp_handler_') and en.kind[1] == 'install_snapshot_response'

    def rs(self, eng, st, g):
        return nn(eng.peek(st, RESP, self.getf('resp_msg', g)))

    def accepted(self, eng, st):
        return decided(st, 'eq', self.rs(eng, st, 'get_accepted'), C(1)) is True

    def ctx_of(self, p):
        return ('fld', p, self.getf('peer', 'get_snapshot_sync_ctx'))

    def event(self, eng, st, ev):
        if ev.kind != 'write':
            return
        nx = self.rs(eng, st, 'get_next_idx')
        snpf = self.getf('snapshot_sync_ctx', 'get_snapshot')
        if ev.name == self.getf('snapshot_sync_ctx', 'get_offset'):
            self.ob('offset', ev.site)
            st.meta = (1, st.meta[1])
            if not self.accepted(eng, st):
                self.bad('refused', ev.site, 'a refused block moves the acknowledged offset', st, ev.stack)
            if not holds(st, 'eq', ev.args[1], nx):
                self.bad('offset', ev.site, 'the acknowledged offset becomes %s instead of the position in the response' % show(ev.args[1]), st, ev.stack)
            return
        mf, nf, cf = self.getf('peer', 'get_matched_idx'), self.getf('peer', 'get_next_log_idx'), self.getf('peer', 'get_snapshot_sync_ctx')
        if ev.name not in (mf, nf, cf) or ev.args[0] == THIS:
            return
        p = ev.args[0]
        if p[0] == 'new':
            return
        if ev.name == cf and ev.args[1][0] == 'new':
            return          # a new transfer, see snap-send
        if ev.name == nf and decided(st, 'eq', ev.args[2], C(0)) is True and decided(st, 'eq', ev.args[1], self.nxt(eng, st)) is True:
            return          # first contact
        self.ob('complete', ev.site)
        c = self.ctx_of(p)
        s = ('fld', c, snpf)
        if not self.accepted(eng, st):
            self.bad('refused', ev.site, 'a refusal changes what the peer is believed to store', st, ev.stack)
        elif not holds(st, 'le', self.sf(eng, st, s, 'size'), nx):
            self.bad('partial', ev.site, 'the peer is taken to be caught up before the whole snapshot is acknowledged', st, ev.stack)
        st.meta = (1, st.meta[1])
        want = {mf: self.sidx(eng, st, s), nf: add(self.sidx(eng, st, s), C(1)), cf: NULL}[ev.name]
        if not holds(st, 'eq', ev.args[1], want):
            self.bad('wrong-' + ev.name, ev.site, '%s becomes %s instead of what the snapshot says' % (ev.name, show(ev.args[1])), st, ev.stack)

    def final(self, eng, st):
        if st.ctl[0] != 'done' or st.meta[0] or not self.accepted(eng, st):
            return
        # accepted, a transfer in progress, and nothing recorded
        for op, a, b in st.facts.lits():
            if op == 'ne':
                for x, y in ((a, b), (b, a)):
                    if y == NULL and x[0] == 'fld' and x[2] == self.getf('peer', 'get_snapshot_sync_ctx'):
                        self.bad('lost', self.endsite(), 'an accepted block is not recorded', st)
                        return


RULES = [Compact, SnapMake, SnapDone, SnapLast, SnapInstall, SnapSend, SnapAck, ConfigChain]
