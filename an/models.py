"""Models of the interfaces a Raft server is built on (the boundary set)."""
from .terms import *
from .engine import NNSET, strip, Hooks

NS = 'cornerstone::'
IFACES = {NS + x for x in (
    'log_store', 'state_machine', 'state_mgr', 'rpc_client', 'rpc_client_factory', 'delayed_task_scheduler',
    'rpc_listener', 'logger', 'raft_event_listener', 'delayed_task', 'buffer')}
CODEC = {NS + x for x in ('cluster_config', 'srv_config', 'snapshot', 'snapshot_sync_req', 'log_entry')}


class RaftHooks(Hooks):
    """boundary set of the Raft core"""
    ifaces = IFACES

    def boundary(self, eng, callee):
        cls = callee.get('cls') or ''
        if cls in self.ifaces:
            return not callee.get('ctor')
        if cls in CODEC and callee['name'] in ('serialize', 'deserialize'):
            return True
        if cls.startswith(NS + 'async_result<') and callee['name'] in ('set_result', 'get', 'when_ready'):
            return True
        return False


def log_default(k):
    if len(k) == 2 and k[1] in ('#next', '#start'):
        v = ('fld', k[0], k[1])
        NNSET.add(v)
        return v
    return None


def lget(st, o, w):
    v = st.store.get((o, w))
    if v is None:
        v = log_default((o, w))
    return v


def lver(st, o):
    return st.store.get((o, '#lv'), C(0))


def lbump(eng, st, o):
    eng.tick(st)
    st.set((o, '#lv'), ('ver', st.n))


def raft_model(eng, what, e, st, obj, args, **kw):
    if what != 'call':
        return None
    cls, name = e.get('cls', ''), e['name']
    vals = [eng.val(st, a) for a in args]
    if cls == NS + 'log_store':
        o = obj
        if name == 'next_slot':
            return [(st, lget(st, o, '#next'))]
        if name == 'start_index':
            return [(st, lget(st, o, '#start'))]
        if name in ('last_entry', 'entry_at', 'term_at', 'log_entries'):
            v = ('app', name, o, lver(st, o)) + tuple(vals)
            if name == 'term_at':
                NNSET.add(v)
            return [(st, v)]
        if name == 'append':
            nx = lget(st, o, '#next')
            st.set((o, '#next'), add(nx, C(1)))
            lbump(eng, st, o)
            return [(st, nx)]
        if name == 'write_at':
            nx = lget(st, o, '#next')
            lbump(eng, st, o)
            n2 = eng.fresh(st, 'next_after_write', True)
            st.set((o, '#next'), n2)
            f = st.facts.add_le(add(vals[0], C(1)), n2)
            if f is not None:
                st.facts = f
            # the implementation may or may not drop what follows
            if st.facts.decide_le(add(vals[0], C(1)), nx) is True:
                f = st.facts.add_le(n2, nx)
                if f is not None:
                    st.facts = f
            return [(st, C(0))]
        if name == 'apply_pack':
            lbump(eng, st, o)
            n2 = eng.fresh(st, 'next_after_pack', True)
            f = st.facts.add_le(C(1), n2)
            st.facts = f or st.facts
            st.set((o, '#next'), n2)
            return [(st, C(0))]
        if name == 'compact':
            lbump(eng, st, o)
            ok = st.copy()
            s2 = eng.fresh(ok, 'start_after_compact', True)
            ok.set((o, '#start'), s2)
            n2 = eng.fresh(ok, 'next_after_compact', True)
            ok.set((o, '#next'), n2)
            for a, b in ((C(1), s2), (s2, n2)):
                ok.facts = ok.facts.add_le(a, b) or ok.facts
            return [(ok, C(1)), (st, C(0))]
        if name == 'pack':
            return [(st, ('app', 'pack', o, lver(st, o)) + tuple(vals))]
    if cls == NS + 'state_mgr' and name == 'system_exit':
        st.ctl = ('exit',)
        return [(st, None)]
    if cls == NS + 'state_mgr' and name in ('server_id',):
        return [(st, ('app', name, obj))]
    if cls == NS + 'state_machine':
        if name in ('last_snapshot', 'last_commit_index'):
            v = ('app', name, obj, st.store.get((obj, '#smv'), C(0)))
            if name == 'last_commit_index':
                NNSET.add(v)
            return [(st, v)]
        if name in ('apply_snapshot', 'commit', 'create_snapshot'):
            eng.tick(st)
            st.set((obj, '#smv'), ('ver', st.n))
            if name == 'apply_snapshot':
                b = eng.fresh(st, 'applied', True)
                return [(st, b)]
            return [(st, C(0))]
    if cls in CODEC and name == 'deserialize':
        return [(st, ('new', cls, ('of', vals[0], st.store.get((vals[0], '#bv'), C(0)))))]
    if cls in CODEC and name == 'serialize':
        eng.tick(st)
        v = ('new', NS + 'buffer', st.n)
        st.set((v, '#ser'), obj)
        return [(st, v)]
    if cls == NS + 'buffer':
        bv = st.store.get((obj, '#bv'), C(0)) if obj else C(0)
        if name == 'alloc':
            eng.tick(st)
            v = ('new', NS + 'buffer', st.n)
            st.set((v, '#size'), vals[0])
            return [(st, v)]
        if name == 'size':
            s = st.store.get((obj, '#size'))
            if s is None:
                s = ('app', 'bufsize', obj)
            return [(st, s)]
        if name == 'pos' and not vals:
            return [(st, ('app', 'bufpos', obj, bv))]
        if name.startswith('get'):
            v = ('app', 'buf.' + name, obj, bv)
            eng.tick(st)
            st.set((obj, '#bv'), ('ver', st.n))
            return [(st, v)]
        if name == 'put':
            eng.tick(st)
            st.set((obj, '#bv'), ('ver', st.n))
            prev = st.store.get((obj, '#puts'), ('puts',))
            st.set((obj, '#puts'), prev + (vals[0],))
            return [(st, C(0))]
    return None


raft_model.default = log_default
