"""Path-sensitive abstract interpretation of the extracted syntax trees.

Every repository callee is followed (so a helper that was extracted, inlined or
renamed makes no difference); calls through the interfaces in the boundary set
and calls into external libraries become events.  Abstract states hold a
value-numbered store, the set of linear facts known on the path, the lock set
and the list of recorded events; states that agree on everything but the facts
are joined.  Loops are summarised by one generic iteration from a widened head
state (constant-stride induction variables and inductive bounds are kept).
"""
import re
from .terms import *
from . import terms as T
from .program import AnalysisBroken

NNSET = set()
_old_nonneg = T.nonneg


def _nonneg(a):
    return a in NNSET or _old_nonneg(a)


T.nonneg = _nonneg

REF = re.compile(r'\s*(&&|&)$')


def strip(t):
    t = REF.sub('', t.strip())
    while True:
        n = t
        if n.startswith('const '):
            n = n[6:]
        if n.startswith('volatile '):
            n = n[9:]
        if n.endswith(' const'):
            n = n[:-6]
        if n == t:
            return t
        t = n


CONT = ('std::vector<', 'std::list<', 'std::unordered_map<', 'std::map<', 'std::unordered_set<', 'std::set<',
        'std::queue<', 'std::deque<')
LOCKS = ('std::lock_guard<', 'std::unique_lock<', 'std::shared_lock<', 'std::scoped_lock<')
OBJ = ('std::mutex', 'std::recursive_mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::timed_mutex',
       'std::condition_variable', 'std::basic_fstream', 'std::basic_ofstream', 'std::basic_ifstream',
       'std::basic_ostream', 'std::basic_istream', 'asio::', 'std::thread')

_kcache = {}




class Ev:
    """One event of a path."""
    __slots__ = ('kind', 'name', 'args', 'site', 'ann', 'st', 'stack')

    def __init__(self, kind, name, args, site, st, stack):
        self.kind = kind
        self.name = name
        self.args = args
        self.site = site
        self.st = st
        self.stack = stack
        self.ann = None

    def __repr__(self):
        return '%s %s(%s) @%s:%s' % (self.kind, self.name, ', '.join(show(a) if isinstance(a, tuple) else str(a)
                                                                    for a in self.args), self.site[0], self.site[1])


class Node:
    __slots__ = ('prev', 'ev', 'n')

    def __init__(self, prev, ev):
        self.prev = prev
        self.ev = ev
        self.n = (prev.n if prev else 0) + 1


class State:
    __slots__ = ('store', 'frames', 'facts', 'locks', 'trace', 'ctl', 'n', 'tryd', 'meta', 'cnt', 'cov', 'lab')

    def __init__(self):
        self.store = {}
        self.frames = ()
        self.facts = Facts()
        self.locks = ()
        self.trace = None
        self.ctl = None
        self.n = 0
        self.tryd = 0
        self.meta = ()
        self.cnt = {}
        self.cov = frozenset()
        self.lab = ()

    def copy(self):
        s = State.__new__(State)
        s.store = self.store
        s.frames = self.frames
        s.facts = self.facts
        s.locks = self.locks
        s.trace = self.trace
        s.ctl = self.ctl
        s.n = self.n
        s.tryd = self.tryd
        s.meta = self.meta
        s.cnt = self.cnt
        s.cov = self.cov
        s.lab = self.lab
        return s

    def set(self, k, v):
        s = dict(self.store)
        s[k] = v
        self.store = s

    def setl(self, depth, k, v):
        fr = list(self.frames)
        d = dict(fr[depth])
        d[k] = v
        fr[depth] = d
        self.frames = tuple(fr)

    def events(self):
        out = []
        n = self.trace
        while n is not None:
            out.append(n.ev)
            n = n.prev
        out.reverse()
        return out

    def mkey(self):
        return (id(self.trace), self.locks, self.ctl, self.tryd, self.meta, self.lab, frozenset(self.store.items()),
                tuple(frozenset(f.items()) for f in self.frames))


class Hooks:
    """Per-check policy; see rules."""

    def record(self, eng, st, ev):
        return None

    def access(self, eng, st, obj, f, rw, site):
        pass

    def boundary(self, eng, callee):
        return False

    def iteration(self, eng, st):
        """a generic loop iteration is about to be analysed"""

    loop_in = None

    def iter_end(self, eng, st, k):
        """a generic iteration (number k) has ended normally"""

    def soft(self, key):
        """store keys whose difference must not keep two states apart"""
        return len(key) < 2 or key[1] not in self.hard

    hard = frozenset()
    narrow = None
    # load(eng, st, address, width, e) -> value or None; save(eng, st, address, width, value, e) -> handled
    load = save = None
    # bits(eng, op, a, b): value of a bit operation
    bits = None
    split = None
    # ghost(eng, st, kind, name, args): updates ghost variables (also while loops are being summarised)
    ghost = None
    # norm(eng, st): makes ghost variables of equivalent states equal before states are joined
    norm = None
    # step(eng, st): the same at the end of an iteration
    step = None
    # predicates over values that never change, to be remembered across joins
    ghosts = None
    induct = False
    # keep apart the reasons for which a loop with a compound condition ended
    split_exits = False
    # analyse the first iteration of every loop by itself
    peel = False

    maythrow = True
    logs = False

    def on_throw(self, eng, st, what, e):
        pass


def holds0(st, t):
    return st.facts.holds(('eq', t, C(0)))


class Engine:
    MAXSTATES = 6000
    MAXDEPTH = 60

    def __init__(self, prog, hooks, models=None):
        self.p = prog
        self.h = hooks
        self.quiet = 0
        self.stack = []
        self.nodes = {}
        self.path = []
        self.curln = 0
        self.ids = {}
        self.loopcache = {}
        self.models = models or []
        self.stats = {'calls_inlined': 0, 'boundary_calls': 0, 'paths': 0, 'joins': 0, 'events': 0, 'branches': 0,
                      'loops': 0}
        self.fns_seen = set()
        self.sites = set()
        self.imprecise = set()

    # ------------------------------------------------------------------ utils
    def kind(self, t):
        t = strip(t)
        k = _kcache.get(t)
        if k is None:
            k = self._kind(t)
            _kcache[t] = k
        return k

    def _kind(self, t):
        if t.endswith('*'):
            return 'val'
        if t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<') or t.startswith('std::weak_ptr<'):
            return 'smart'
        if t.startswith(CONT):
            return 'cont'
        if t.startswith('std::function<'):
            return 'func'
        if t.startswith('std::atomic<') or t.startswith('std::__atomic_base<') or t in ('std::atomic_bool', 'std::atomic_int'):
            return 'val'
        if t.startswith(LOCKS):
            return 'lock'
        if t in self.p.classes:
            return 'obj'
        if t.startswith(OBJ):
            return 'obj'
        return 'val'

    def tick(self, st):
        """a fresh number for st: the same program point reached along different
        branches gets the same one, so that the states can be joined"""
        key = (tuple(self.path), self.curln)
        k = st.cnt.get(key, 0) + 1
        d = dict(st.cnt)
        d[key] = k
        st.cnt = d
        full = (key, k)
        n = self.ids.get(full)
        if n is None:
            n = self.ids[full] = len(self.ids) + 1
        st.n = n

    @staticmethod
    def maxcnt(g):
        out = dict(g[0].cnt)
        for x in g[1:]:
            if x.cnt is not g[0].cnt:
                for k, v in x.cnt.items():
                    if out.get(k, 0) < v:
                        out[k] = v
        return out

    def ghosts(self, g):
        gf = self.h.ghosts
        if gf is not None:
            for x in g:
                q = gf(self, x)
                if q:
                    x.cov = x.cov | {('ghost', t) for t in q}
        return g

    def mincov(self, g):
        c = u = g[0].cov
        for x in g[1:]:
            if x.cov is not c:
                c = c & x.cov
                u = u | x.cov
        if len(u) != len(c):
            # an interval may be covered in another way on the other side
            for e in u - c:
                if e[0] in ('iv', 'pt') and all(
                        e in x.cov or self.covered(x, e[1], e[2], e[3], e[4] if e[0] == 'iv' else e[3]) for x in g):
                    c = c | {e}
        return c

    def cover(self, st, tag, c, idx):
        """element idx of container (or index space) c has been treated on this path"""
        if not self.quiet:
            st.cov = st.cov | {('pt', tag, c, idx)}

    def covered_all(self, st, tag, c):
        return ('all', tag, c) in st.cov or st.facts.decide_eq(self.csize(st, c), C(0)) is True

    def covered(self, st, tag, c, lo, hi):
        """every index of [lo, hi] of c has been treated on this path"""
        f = st.facts
        ivs = [(e[3], e[4] if e[0] == 'iv' else e[3]) for e in st.cov if e[0] in ('iv', 'pt') and e[1] == tag and e[2] == c]
        todo, seen = [lo], set()
        while todo:
            p = todo.pop()
            if f.holds(('lt', hi, p)):
                return True
            for a, b in ivs:
                if b not in seen and f.holds(('le', a, p)) and f.holds(('le', p, add(b, C(1)))):
                    seen.add(b)
                    todo.append(add(b, C(1)))
        return False

    def sumcov(self, z, pts, ksym, kend, cands):
        """what the iterations 0 .. kend-1 have covered, in terms that survive the loop"""
        new = set()
        for _, tag, c, idx in pts:
            cst, items = lin(idx)
            co = dict(items).get(ksym)
            if co not in (1, -1):
                continue
            rest = sub(idx, scale(ksym, co))
            if co == 1:
                lo, hi = rest, sub(add(rest, kend), C(1))
            else:
                lo, hi = add(sub(rest, kend), C(1)), rest
            if c is not None and c[0] != 'space':
                n = self.csize(z, c)
                if z.facts.holds(('le', lo, C(0))) and z.facts.holds(('le', n, add(hi, C(1)))):
                    new.add(('all', tag, c))
                continue
            new.add(('iv', tag, c, lo, hi))
            for t in cands:
                v = self.pure_eval(t, z) if isinstance(t, dict) else t
                if v is None or v[0] in NOLIN:
                    continue
                for b in (v, sub(v, C(1)), add(v, C(1))):
                    if co == 1 and z.facts.holds(('le', b, hi)):
                        new.add(('iv', tag, c, lo, b))
                    if co == -1 and z.facts.holds(('le', lo, b)):
                        new.add(('iv', tag, c, b, hi))
        z = z.copy()
        z.cov = frozenset(e for e in z.cov if e[0] != 'pt' or ksym not in idatoms(e[3])) | new
        return z

    def fresh(self, st, name, unsigned=False):
        self.tick(st)
        s = ('sym', name, st.n)
        if unsigned:
            NNSET.add(s)
        return s

    def site(self, e):
        f = self.stack[-1] if self.stack else None
        return (f['file'] if f else '?', e.get('ln', 0) if isinstance(e, dict) else 0, f['q'] if f else '?')

    def emit(self, st, kind, name, args, e):
        """record an event if the check asks for it"""
        if self.h.ghost is not None:
            self.h.ghost(self, st, kind, name, args)
        if self.quiet:
            return
        site = self.site(e)
        ev = Ev(kind, name, args, site, st, tuple(f['q'] for f in self.stack))
        a = self.h.record(self, st, ev)
        if a is None:
            return
        ev.ann = a
        ev.st = st.copy()
        key = (id(st.trace) if st.trace else 0, kind, name, args, site[0], site[1], a)
        n = self.nodes.get(key)
        if n is None:
            n = Node(st.trace, ev)
            self.nodes[key] = n
            # keep st.trace alive through n.prev
        st.trace = n
        self.stats['events'] += 1

    def merge(self, sts):
        if len(sts) < 2:
            return sts
        if self.h.norm is not None and not self.quiet:
            for s in sts:
                self.h.norm(self, s)
        groups = {}
        order = []
        for s in sts:
            k = s.mkey()
            g = groups.get(k)
            if g is None:
                groups[k] = g = []
                order.append(k)
            g.append(s)
        if len(order) != len(sts):
            out = []
            for g in self.splits([groups[k] for k in order]):
                if len(g) == 1:
                    out.append(g[0])
                else:
                    s = g[0].copy()
                    s.facts = Facts.join([x.facts for x in g])
                    s.cnt = self.maxcnt(g)
                    s.cov = self.mincov(self.ghosts(g))
                    self.stats['joins'] += len(g) - 1
                    out.append(s)
            sts = out
        if len(sts) > 1:
            sts = self.soft_merge(sts)
        if len(sts) > self.MAXSTATES:
            raise AnalysisBroken('state explosion in ' + (self.stack[-1]['q'] if self.stack else '?'))
        return sts

    def splits(self, groups):
        """keep states apart that differ in what the rule needs to know"""
        sp = self.h.split
        if sp is None:
            return groups
        out = []
        for g in groups:
            if len(g) == 1 or (g[0].ctl and g[0].ctl[0] in ('exit', 'diverge')):
                out.append(g)
                continue
            d = {}
            for x in g:
                d.setdefault(sp(self, x), []).append(x)
            out.extend(d.values())
        return out

    def soft_merge(self, sts):
        soft = self.h.soft
        groups = {}
        order = []
        for s in sts:
            k = (id(s.trace), s.locks, s.ctl, s.tryd, s.meta, s.lab,
                 frozenset((a, b) for a, b in s.store.items() if not soft(a)),
                 tuple(frozenset(f.items()) for f in s.frames))
            g = groups.get(k)
            if g is None:
                groups[k] = g = []
                order.append(k)
            g.append(s)
        if len(order) == len(sts):
            return sts
        out = []
        for g in self.splits([groups[k] for k in order]):
            if len(g) == 1:
                out.append(g[0])
                continue
            s = g[0].copy()
            s.cnt = self.maxcnt(g)
            s.cov = self.mincov(self.ghosts(g))
            keys = set()
            for x in g:
                keys |= {a for a in x.store if soft(a)}
            st = dict(s.store)
            for a in sorted(keys, key=repr):
                vals = {x.store.get(a) for x in g}
                if len(vals) > 1 and None in vals:
                    vals = {self.entryval(x, a) for x in g}
                if len(vals) > 1:
                    cs = self.constants(g, a)
                    if len(cs) == 1 and None not in cs:
                        st[a] = cs.pop()
                        continue
                    self.phi(s, st, a, vals)
            s.store = st
            s.facts = Facts.join([x.facts for x in g])
            out.append(s)
            self.stats['joins'] += len(g) - 1
        return out

    def constants(self, g, a):
        """the constants a location holds in these states, as their facts know"""
        out = set()
        for x in g:
            v = x.store.get(a)
            if v is None:
                v = self.entryval(x, a)
            if v is not None and v[0] in ('sym', 'fld', 'lin', 'app'):
                v = x.facts.canon(v)
            out.add(v if v is not None and v[0] == 'c' else None)
            if None in out:
                break
        return out

    def phi(self, s, st, a, vals):
        f = a[1] if len(a) > 1 else a[0]
        if isinstance(f, tuple) or f in ('#items', '#from', '#copyof', '#sorted', '#puts', '#ser'):
            st.pop(a, None)
            if isinstance(f, tuple):
                self.tick(s)
                st[(a[0], '#v')] = ('ver', s.n)
            return
        self.tick(s)
        v = ('sym', 'phi:%s' % (f,), s.n)
        if all(x is not None and (x[0] == 'c' and x[1] >= 0 or T.nonneg(x)) for x in vals) or f in ('#n', '#next', '#start'):
            NNSET.add(v)
        st[a] = v

    def newids(self, s, cnt):
        """numbers handed out in s since the counters were cnt"""
        out = set()
        for k, v in s.cnt.items():
            v0 = cnt.get(k, 0)
            if v != v0:
                for i in range(v0 + 1, v + 1):
                    n = self.ids.get((k, i))
                    if n is not None:
                        out.add(n)
        return out

    def gc(self, sts, entry, keep=()):
        """forget objects that came up since entry and that nothing refers to any more"""
        store0, cnt0 = entry
        for s in sts:
            if s.store is store0:
                continue
            nid = None
            cand = {}
            for k in s.store:
                if k in store0 or not isinstance(k[0], tuple):
                    continue
                o = base(k[0])
                if o in keep or not idset(o):
                    continue
                if nid is None:
                    nid = self.newids(s, cnt0)
                if idset(o) & nid:
                    cand.setdefault(o, []).append(k)
            if not cand:
                continue
            work = []
            for k, v in s.store.items():
                if not isinstance(k[0], tuple):
                    work.append(v)
                elif base(k[0]) not in cand:
                    work.append(v)
                    work.append(k[0])
            for f in s.frames:
                work.extend(f.values())
            if s.ctl:
                work.extend(x for x in s.ctl[1:] if isinstance(x, tuple))
            work.extend(m for m, _ in s.locks)
            live = set()
            while work:
                v = work.pop()
                if not isinstance(v, tuple):
                    continue
                for n in subterms(v):
                    if n in cand and n not in live:
                        live.add(n)
                        for k in cand[n]:
                            work.append(s.store[k])
                            work.append(k[0])
            dead = [k for n, ks in cand.items() if n not in live for k in ks]
            if dead:
                d = dict(s.store)
                for k in dead:
                    del d[k]
                s.store = d

    # ------------------------------------------------------------- assume
    def assume(self, st, op, a, b):
        """returns the state with the fact added, or None if impossible"""
        f = st.facts
        if op == '==':
            n = f.add_eq(a, b)
        elif op == '!=':
            n = f.add_ne(a, b)
        elif op == '<=':
            n = f.add_le(a, b)
        elif op == '<':
            n = f.add_le(add(a, C(1)), b)
        elif op == '>=':
            n = f.add_le(b, a)
        elif op == '>':
            n = f.add_le(add(b, C(1)), a)
        else:
            raise ValueError(op)
        if n is None:
            return None
        if n is f:
            return st
        s = st.copy()
        s.facts = n
        return s

    NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}

    def compare(self, st, op, a, b):
        """-> [(state, bool)]"""
        self.stats['branches'] += 1
        if op in ('==', '!='):
            r = self.iter_cmp(st, a, b)
            if r is not None:
                a, b = r
                if a[0] == 'app' and a[1] == 'has' and b == C(0):
                    return [(s, (not t) if op == '==' else t) for s, t in self.truth(st, a, 'bool')]
        elif a[0] == 'it' and b[0] == 'it':
            a, b = a[3], b[3]
        if a[0] == 'opaque' or b[0] == 'opaque':
            return [(st, True), (st.copy(), False)]
        out = []
        t = self.assume(st, op, a, b)
        if t is not None:
            out.append((t, True))
        f = self.assume(st, self.NEG[op], a, b)
        if f is not None:
            out.append((f, False))
        return out

    def iter_cmp(self, st, a, b):
        """equality of two iterators as equality of two numbers"""
        if a[0] != 'it' or b[0] != 'it':
            return None
        if b[3][0] == 'app' and b[3][1] == 'pos':
            a, b = b, a
        if a[3][0] == 'app' and a[3][1] == 'pos':
            p = a[3]
            if st.facts.decide_eq(b[3], self.csize(st, a[1])) is True or b[3] == ('app', 'size', a[1], a[2]):
                # found?  ==end  <=>  has == 0
                has = ('app', 'has', p[2], p[3], p[4])
                return has, C(0)
        return a[3], b[3]

    def truth(self, st, v, t='bool'):
        """split on a value used as a condition"""
        if v[0] == 'c':
            return [(st, v[1] != 0)]
        if v[0] == 'opaque':
            return [(st, True), (st.copy(), False)]
        if nonnull(v):
            return [(st, True)]
        if t == 'bool':
            out = []
            x = self.assume(st, '==', v, C(1))
            y = self.assume(st, '==', v, C(0))
            if x is not None:
                out.append((x, True))
            if y is not None:
                out.append((y, False))
            self.stats['branches'] += 1
            return out
        return self.compare(st, '!=', v, C(0))

    # --------------------------------------------------------- lvalues
    def default(self, obj, f, t):
        k = self.kind(t) if t else 'val'
        if obj[0] == 'valobj' and len(obj) == 2 and obj[1].startswith('std::pair<') and k in ('smart', 'func', 'val'):
            return C(0)
        if k in ('cont', 'obj', 'lock') and not REF.search(t):
            return ('sub', obj, f)
        v = ('fld', obj, f)
        if t and strip(t) in ('unsigned long', 'unsigned int', 'unsigned short', 'unsigned char', 'std::atomic<unsigned long>'):
            NNSET.add(v)
        return v

    def read(self, st, lv, e=None):
        k = lv[0]
        if k == 'V':
            return lv[1]
        if k == 'L':
            v = st.frames[lv[1]].get(lv[2])
            if v is None:
                return ('sym', 'uninit:' + str(lv[2]))
            if v[0] == 'ref':
                return self.read(st, v[1], e)
            return v
        if k == 'F':
            if not self.quiet or True:
                self.h.access(self, st, lv[1], lv[2], 'r', e)
            v = st.store.get((lv[1], lv[2]))
            if v is None:
                return self.default(lv[1], lv[2], lv[3])
            return v
        if k == 'G':
            v = st.store.get(('G', lv[1]))
            return v if v is not None else ('glob', lv[1])
        if k == 'E':
            return self.celem(st, lv[1], lv[2])
        if k == 'D':
            if self.h.load is not None:
                v = self.h.load(self, st, lv[1], lv[2], e)
                if v is not None:
                    return v
            self.emit(st, 'mem', 'read', (lv[1], C(lv[2])), e)
            return self.deref(st, lv[1])
        raise ValueError(lv)

    def deref(self, st, p):
        v = st.store.get(('D', p))
        if v is not None:
            return v
        return ('app', 'mem', p, st.store.get(('#memv',), C(0)))

    def write(self, st, lv, v, e=None):
        k = lv[0]
        if k == 'V':
            return
        if k == 'L':
            cur = st.frames[lv[1]].get(lv[2])
            if cur is not None and cur[0] == 'ref':
                self.write(st, cur[1], v, e)
                return
            st.setl(lv[1], lv[2], v)
            return
        if k == 'F':
            self.h.access(self, st, lv[1], lv[2], 'w', e)
            old = self.peek(st, lv[1], lv[2], lv[3])
            self.emit(st, 'write', lv[2], (lv[1], v, old), e)
            s = dict(st.store)
            o = lv[1]
            if o[0] not in ('new', 'this'):
                # another name of a non-fresh object may denote the same field
                for kk in list(s):
                    if len(kk) == 2 and kk[1] == lv[2] and kk[0] != o and kk[0][0] not in ('new', 'this', 'sub'):
                        if st.facts.decide_eq(kk[0], o) is None:
                            self.tick(st)
                            s[kk] = ('sym', 'alias:%s' % lv[2], st.n)
            s[(o, lv[2])] = v
            st.store = s
            return
        if k == 'G':
            st.set(('G', lv[1]), v)
            return
        if k == 'E':
            self.cset(st, lv[1], lv[2], v, e)
            return
        if k == 'D':
            if self.h.save is not None and self.h.save(self, st, lv[1], lv[2], v, e):
                return
            self.emit(st, 'mem', 'write', (lv[1], C(lv[2]), v), e)
            s = {kk: x for kk, x in st.store.items() if kk[0] != 'D'}
            s[('D', lv[1])] = v
            self.tick(st)
            s[('#memv',)] = ('ver', st.n)
            st.store = s
            return
        raise ValueError(lv)

    def peek(self, st, obj, f, t=''):
        v = st.store.get((obj, f))
        return v if v is not None else self.default(obj, f, t)

    def typesize(self, t):
        t = strip(t)
        if t.endswith('*'):
            return 8
        return {'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'unsigned short': 2, 'short': 2, 'int': 4,
                'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}.get(t, 1)

    def lv(self, e, st):
        """-> [(state, lvalue)]; objects of class type are ('V', objectterm)"""
        k = e['k']
        if k == 'var':
            if e.get('glob'):
                return [(st, ('G', e['id']))]
            # find the frame that has it (lambda bodies carry captures in theirs)
            d = len(st.frames) - 1
            v = st.frames[d].get(e['id'])
            if v is not None and v[0] == 'ref':
                return [(st, v[1])]
            if v is None and ('$lam' in st.frames[d]):
                pass
            return [(st, ('L', d, e['id']))]
        if k == 'mem':
            out = []
            for s, b in self.obj(e['b'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                if b[0] == 'pair':
                    out.append((s, ('V', b[1] if e['f'] == 'first' else b[2])))
                    continue
                if b[0] == 'app' and b[1] == 'elem' and e['f'] == 'first' and b[4][0] == 'app' and b[4][1] == 'pos':
                    out.append((s, ('V', b[4][4])))
                    continue
                if e.get('ref'):
                    v = s.store.get((b, e['f']))
                    if v is not None and v[0] == 'ref':
                        out.append((s, v[1]))
                        continue
                out.append((s, ('F', b, e['f'], e['t'])))
            return out
        if k == 'un' and e['op'] == '*':
            out = []
            for s, v in self.eval(e['e'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                if v[0] == 'addr':
                    out.append((s, v[1]))
                elif v[0] == 'it':
                    out.append((s, ('E', v[1], v[3])))
                elif self.kind(e['t']) in ('obj', 'cont'):
                    out.append((s, ('V', v)))
                else:
                    out.append((s, ('D', v, self.typesize(e['t']))))
            return out
        if k == 'un' and e['op'] in ('++', '--') and not e['post']:
            out = []
            for s, v in self.eval(e, st):
                out.extend(self.lv(e['e'], s) if not s.ctl else [(s, None)])
            return out
        if k == 'asg':
            out = []
            for s, v in self.eval(e, st):
                out.extend(self.lv(e['l'], s) if not s.ctl else [(s, None)])
            return out
        if k == 'idx':
            out = []
            for s, b in self.eval(e['b'], st):
                for s2, i in (self.eval(e['i'], s) if not s.ctl else [(s, None)]):
                    if s2.ctl:
                        out.append((s2, None))
                    elif b[0] == 'glob':
                        self.emit(s2, 'gidx', b[1], (i, C(e.get('n', -1))), e)
                        out.append((s2, ('V', ('app', 'gelem', b, i))))
                    elif self.kind(e['t']) in ('obj', 'cont'):
                        out.append((s2, ('V', ('app', 'arr', b, i))))
                    else:
                        sz = self.typesize(e['t'])
                        out.append((s2, ('D', add(b, scale(i, sz)), sz)))
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st):
                if s.ctl:
                    out.append((s, None))
                else:
                    out.extend(self.lv(e['a'] if b else e['b'], s))
            return out
        if k in ('icast', 'pcast', 'tobool'):
            return [(s, ('V', v)) for s, v in self.eval(e, st)]
        if k == 'call':
            return self.call(e, st, want_lv=True)
        return [(s, ('V', v)) for s, v in self.eval(e, st)]

    def obj(self, e, st):
        """evaluate the object expression of a member access / call"""
        return self.eval(e, st)

    # ------------------------------------------------------- conditions
    def cond(self, e, st):
        """-> [(state, bool)]"""
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, (not b) if b is not None else None) for s, b in self.cond(e['e'], st)]
        if k == 'bin' and e['op'] == '&&':
            out = []
            for s, b in self.cond(e['l'], st):
                if s.ctl or not b:
                    out.append((s, b))
                else:
                    out.extend(self.cond(e['r'], s))
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for s, b in self.cond(e['l'], st):
                if s.ctl or b:
                    out.append((s, b))
                else:
                    out.extend(self.cond(e['r'], s))
            return out
        if k == 'bin' and e['op'] in self.NEG:
            out = []
            for s, a in self.eval(e['l'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                for s2, b in self.eval(e['r'], s):
                    if s2.ctl:
                        out.append((s2, None))
                    else:
                        out.extend(self.compare(s2, e['op'], a, b))
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, a in self.eval(e['l'], st):
                out.extend(self.cond(e['r'], s) if not s.ctl else [(s, None)])
            return out
        if k == 'tobool':
            out = []
            for s, v in self.eval(e['e'], st):
                if s.ctl:
                    out.append((s, None))
                else:
                    out.extend(self.truth(s, v, 'int'))
            return out
        out = []
        for s, v in self.eval(e, st):
            if s.ctl:
                out.append((s, None))
            else:
                out.extend(self.truth(s, v, strip(e.get('t', 'bool'))))
        return out

    # ------------------------------------------------------- expressions
    def evlist(self, es, st):
        acc = [(st, ())]
        for e in es:
            n = []
            for s, vs in acc:
                if s.ctl:
                    n.append((s, vs))
                    continue
                for s2, v in self.eval(e, s):
                    n.append((s2, vs + (v,)))
            acc = n
        return acc

    def evargs(self, es, pts, st):
        """arguments; reference parameters of scalar kind get lvalues ('lv', L, value)"""
        acc = [(st, ())]
        for i, e in enumerate(es):
            pt = pts[i] if i < len(pts) else ''
            byref = bool(REF.search(pt)) and self.kind(pt) in ('val', 'smart', 'func', 'lock')
            n = []
            for s, vs in acc:
                if s.ctl:
                    n.append((s, vs))
                    continue
                if byref:
                    for s2, l in self.lv(e, s):
                        if s2.ctl:
                            n.append((s2, vs))
                        else:
                            n.append((s2, vs + (('lv', l),)))
                else:
                    for s2, v in self.eval(e, s):
                        n.append((s2, vs + (v,)))
            acc = n
        return acc

    def val(self, st, a):
        """value of an argument that may be an lvalue wrapper"""
        if a is not None and a[0] == 'lv':
            return self.read(st, a[1])
        return a

    def eval(self, e, st):
        if e is None:
            return [(st, C(0))]
        k = e['k']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise AnalysisBroken('unsupported expression %s at %s' % (k, self.site(e)))
        return f(e, st)

    def e_int(self, e, st):
        return [(st, ('c', int(e['v'])))]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_zero(self, e, st):
        return [(st, C(0))]

    def e_flt(self, e, st):
        return [(st, ('flt', e.get('ln')))]

    def e_str(self, e, st):
        return [(st, ('str', e['v']))]

    def e_this(self, e, st):
        return [(st, st.frames[-1].get('this', ('this', '?')))]

    def e_fnref(self, e, st):
        return [(st, ('fnref', e.get('fn')))]

    def e_unk(self, e, st):
        self.imprecise.add((e.get('c'), self.site(e)))
        return [(s, self.fresh(s, 'unk')) for s, _ in self.evlist(e.get('ch', []), st)]

    def e_var(self, e, st):
        out = []
        for s, l in self.lv(e, st):
            out.append((s, self.read(s, l, e)))
        return out

    def e_mem(self, e, st):
        out = []
        for s, l in self.lv(e, st):
            if s.ctl:
                out.append((s, None))
            else:
                out.append((s, self.read(s, l, e)))
        return out

    def e_idx(self, e, st):
        return self.e_mem(e, st)

    def e_icast(self, e, st):
        r = self.eval(e['e'], st)
        if self.h.narrow is not None and not self.quiet and self.typesize(e['t']) < self.typesize(e.get('from', e['t'])):
            for s, v in r:
                if v is not None and v[0] != 'c' and not s.ctl:
                    self.h.narrow(self, s, v, e)
        return r

    def e_pcast(self, e, st):
        return self.eval(e['e'], st)

    def e_tobool(self, e, st):
        return [(s, C(1 if b else 0) if b is not None else None) for s, b in self.cond(e, st)]

    def e_cond(self, e, st):
        out = []
        for s, b in self.cond(e['c'], st):
            if s.ctl:
                out.append((s, None))
            else:
                out.extend(self.eval(e['a'] if b else e['b'], s))
        return out

    def e_un(self, e, st):
        op = e['op']
        if op == '!':
            return [(s, C(1 if b else 0) if b is not None else None) for s, b in self.cond(e, st)]
        if op == '&':
            out = []
            for s, l in self.lv(e['e'], st):
                if s.ctl:
                    out.append((s, None))
                elif l[0] == 'V':
                    out.append((s, l[1]))
                elif l[0] in ('F', 'L') and self.kind(e['e']['t']) in ('obj', 'cont'):
                    out.append((s, self.read(s, l, e)))
                elif l[0] == 'D':
                    out.append((s, l[1]))
                else:
                    out.append((s, ('addr', l)))
            return out
        if op == '*':
            out = []
            for s, l in self.lv(e, st):
                out.append((s, self.read(s, l, e) if not s.ctl else None))
            return out
        if op in ('++', '--'):
            out = []
            d = 1 if op == '++' else -1
            if strip(e['t']).endswith('*'):
                d *= self.typesize(strip(e['t'])[:-1])
            for s, l in self.lv(e['e'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                v = self.read(s, l, e)
                nv = add(v, C(d)) if v[0] not in ('it',) else ('it', v[1], v[2], add(v[3], C(d)))
                s = s.copy()
                self.write(s, l, nv, e)
                out.append((s, v if e['post'] else nv))
            return out
        out = []
        for s, v in self.eval(e['e'], st):
            if s.ctl:
                out.append((s, None))
            elif op == '-':
                out.append((s, scale(v, -1)))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, ('app', 'un' + op, v)))
        return out

    def arith(self, op, a, b, t=''):
        if a is None or b is None:
            return None
        if op == '+':
            if a[0] == 'it':
                return ('it', a[1], a[2], add(a[3], b))
            return add(a, b)
        if op == '-':
            if a[0] == 'it' and b[0] == 'it':
                return sub(a[3], b[3])
            if a[0] == 'it':
                return ('it', a[1], a[2], sub(a[3], b))
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == '/' and y:
                    return C(abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1))
                if op == '%' and y:
                    return C(x % y)
                if op == '<<':
                    return C(x << y)
                if op == '>>':
                    return C(x >> y)
                if op == '&':
                    return C(x & y)
                if op == '|':
                    return C(x | y)
                if op == '^':
                    return C(x ^ y)
            except Exception:
                pass
        if self.h.bits is not None:
            r = self.h.bits(self, op, a, b)
            if r is not None:
                return r
        if op == '>>' and b[0] == 'c':
            return ('app', 'div', a, C(1 << b[1])) if b[1] < 64 else ('app', '>>', a, b)
        if op == '<<' and b[0] == 'c':
            return scale(a, 1 << b[1])
        if op == '/':
            # exact division of a linear form
            if b[0] == 'c' and b[1] > 0:
                c, i = lin(a)
                if c % b[1] == 0 and all(n % b[1] == 0 for _, n in i):
                    return mk(c // b[1], {x: n // b[1] for x, n in i})
            return ('app', 'div', a, b)
        if self.h.bits is not None:
            r = self.h.bits(self, op, a, b)
            if r is not None:
                return r
        if op in ('|', '&', '^'):
            a, b = sorted((a, b), key=okey)
        return ('app', op, a, b)

    def e_bin(self, e, st):
        op = e['op']
        if op in self.NEG or op in ('&&', '||'):
            return [(s, C(1 if b else 0) if b is not None else None) for s, b in self.cond(e, st)]
        if op == ',':
            out = []
            for s, _ in self.eval(e['l'], st):
                out.extend(self.eval(e['r'], s) if not s.ctl else [(s, None)])
            return out
        out = []
        sc = 1
        lt, rt = strip(e['l'].get('t', '')), strip(e['r'].get('t', ''))
        for s, vs in self.evlist([e['l'], e['r']], st):
            if s.ctl:
                out.append((s, None))
                continue
            a, b = vs
            if op in '+-' and lt.endswith('*') and not rt.endswith('*'):
                b = scale(b, self.typesize(lt[:-1]))
            elif op == '+' and rt.endswith('*') and not lt.endswith('*'):
                a = scale(a, self.typesize(rt[:-1]))
            out.append((s, self.arith(op, a, b, e['t'])))
        return out

    def e_asg(self, e, st):
        out = []
        op = e['op']
        for s, v in self.eval(e['r'], st):
            if s.ctl:
                out.append((s, None))
                continue
            for s2, l in self.lv(e['l'], s):
                if s2.ctl:
                    out.append((s2, None))
                    continue
                s2 = s2.copy()
                nv = v
                if op != '=':
                    cur = self.read(s2, l, e)
                    r = v
                    lt = strip(e['l'].get('t', ''))
                    if lt.endswith('*'):
                        r = scale(v, self.typesize(lt[:-1]))
                    nv = self.arith(op[:-1], cur, r)
                self.write(s2, l, nv, e)
                out.append((s2, nv))
        return out

    def e_throw(self, e, st):
        out = []
        t = (e.get('e') or {}).get('t', '?')
        for s, v in (self.eval(e['e'], st) if e.get('e') else [(st, None)]):
            if not s.ctl:
                s = s.copy()
                self.emit(s, 'throw', t, (), e)
                s.ctl = ('exc', t)
            out.append((s, None))
        return out

    def e_lam(self, e, st):
        caps = []
        sts = [st]
        self.p.__dict__.setdefault('lamcaps', {})[e['fn']] = e['caps']
        for c in e['caps']:
            if c.get('this') or 'id' not in c:
                continue
            if c.get('init'):
                r = self.eval(c['init'], sts[0])
                s, v = r[0]
                sts = [s]
                caps.append((c['id'], v))
            elif c.get('byref'):
                s, l = self.lv({'k': 'var', 'id': c['id'], 't': ''}, sts[0])[0]
                caps.append((c['id'], ('ref', l)))
            else:
                v = self.read(sts[0], ('L', len(st.frames) - 1, c['id']))
                caps.append((c['id'], v))
        return [(sts[0], ('lam', e['fn'], tuple(caps), st.frames[-1].get('this', ('this', '?'))))]

    def e_ilist(self, e, st):
        if len(e['es']) == 1 and self.kind(e['t']) == 'val':
            return self.eval(e['es'][0], st)
        out = []
        for s, vs in self.evlist(e['es'], st):
            if s.ctl:
                out.append((s, None))
            elif strip(e['t']).startswith('std::pair<') and len(vs) == 2:
                out.append((s, ('pair', vs[0], vs[1])))
            else:
                out.append((s, ('ilist',) + vs))
        return out

    def e_new(self, e, st):
        if e.get('array'):
            out = []
            for s, n in self.eval(e['n'], st):
                s = s.copy()
                self.tick(s)
                o = ('new', 'array', s.n)
                self.emit(s, 'alloc', 'array', (o, n), e)
                s.set((o, '#len'), n)
                out.append((s, o))
            return out
        if e.get('init') and e['init']['k'] == 'ctor':
            return self.e_ctor(e['init'], st)
        out = []
        for s, v in (self.eval(e['init'], st) if e.get('init') else [(st, None)]):
            s = s.copy()
            self.tick(s)
            out.append((s, ('new', e['at'], s.n)))
        return out

    def e_del(self, e, st):
        out = []
        for s, v in self.eval(e['e'], st):
            if not s.ctl:
                self.emit(s, 'delete', '', (v,), e)
            out.append((s, C(0)))
        return out

    # ------------------------------------------------------- construction
    def e_ctor(self, e, st):
        t = strip(e['t'])
        k = self.kind(t)
        args = e['args']
        if k in ('smart', 'func'):
            if not args:
                return [(st, NULL)]
            return self.eval(args[0], st)
        if e.get('copy') or e.get('move'):
            out = []
            for s, v in self.eval(args[0], st):
                if s.ctl or k == 'val':
                    out.append((s, v))
                    continue
                if k == 'cont':
                    s = s.copy()
                    out.append((s, self.ccopy(s, v)))
                else:
                    out.append((s, v))
            return out
        if k == 'cont':
            out = []
            for s, vs in self.evlist(args, st):
                if s.ctl:
                    out.append((s, None))
                    continue
                s = s.copy()
                self.tick(s)
                c = ('new', t, s.n)
                self.cinit(s, c, vs, e)
                out.append((s, c))
            return out
        if k == 'obj' and t in self.p.classes:
            return self.construct(t, e.get('fn'), args, st, e)
        if k == 'obj':
            out = []
            for s, vs in self.evlist(args, st):
                if s.ctl:
                    out.append((s, None))
                    continue
                s = s.copy()
                self.tick(s)
                o = ('new', t, s.n)
                self.emit(s, 'ctor', t, (o,) + vs, e)
                r = self.model('ctor', e, s, o, vs)
                out.extend(r if r is not None else [(s, o)])
            return out
        # value class (string, pair, iterator, time_point ...)
        out = []
        for s, vs in self.evlist(args, st):
            if s.ctl:
                out.append((s, None))
                continue
            if len(vs) == 1 and not t.startswith('std::basic_string'):
                if t.startswith('std::chrono::duration<') and 'duration' not in strip(args[0].get('t', '')):
                    self.emit(s, 'duration', t, vs, e)
                out.append((s, vs[0]))
            elif t.startswith('std::basic_string'):
                vs = tuple(v for v in vs if v[0] != 'valobj')
                if len(vs) and args[0].get('t', '').find('allocator') < 0:
                    self.emit(s, 'strctor', t, vs[:1], e)
                    out.append((s, vs[0]))
                else:
                    out.append((s, ('str', '')))
            elif t.startswith('std::pair<') and len(vs) == 2:
                out.append((s, ('pair', vs[0], vs[1])))
            elif t.startswith('std::atomic') or t.startswith('std::__atomic'):
                out.append((s, vs[0] if vs else C(0)))
            elif t.startswith('std::thread'):
                out.append((s, ('opaque', t)))
            else:
                out.append((s, ('valobj', t) + vs))
        return out

    def find_ctor(self, t, vals, argt):
        c = self.p.classes.get(t)
        if not c:
            return None
        best = None
        for m in c['methods']:
            if not m['ctor'] or m['deleted'] or m['fn'] not in self.p.fns:
                continue
            f = self.p.fns[m['fn']]
            if f.get('copy'):
                continue
            if not (m['minargs'] <= len(vals) <= len(m['pt'])):
                continue
            score = 0
            for i in range(len(vals)):
                a, b = strip(argt[i]) if i < len(argt) else '', strip(m['pt'][i])
                if a == b:
                    score += 3
                elif self.kind(a) == self.kind(b):
                    score += 1
            if best is None or score > best[0]:
                best = (score, m, f)
        # constructor templates are instantiated under their own ids
        if best is None or best[0] < len(vals):
            for f in self.p.fns.values():
                if f.get('isctor') and not f.get('copy') and f['cls'] and len(f['params']) == len(vals) \
                        and f['q'].rsplit('::', 1)[0] == t:
                    sc = sum(3 if i < len(argt) and strip(argt[i]) == strip(p['t']) else 1 if i < len(argt) and
                             self.kind(argt[i]) == self.kind(p['t']) else 0 for i, p in enumerate(f['params']))
                    if best is None or sc > best[0]:
                        best = (sc, {'defs': [], 'pt': [p['t'] for p in f['params']]}, f)
        return best

    def construct(self, t, fn, args, st, e, vals=None, argt=None):
        """new object of a repository class; args are expressions, or vals given"""
        if vals is None:
            f = self.p.fns.get(fn)
            pts = [p['t'] for p in f['params']] if f else e.get('pt', [])
            acc = self.evargs(args, pts, st)
        else:
            b = self.find_ctor(t, vals, argt or [])
            f = b[2] if b else None
            acc = [(st, tuple(vals))]
            if b and len(vals) < len(f['params']):
                n = []
                for s, vs in acc:
                    for s2, dv in self.evlist([d for d in b[1]['defs'][len(vals):]], s):
                        n.append((s2, vs + dv))
                acc = n
        out = []
        for s, vs in acc:
            if s.ctl:
                out.append((s, None))
                continue
            s = s.copy()
            if f is not None and vals is not None:
                for pr, at, v in zip(f['params'], argt or [], vs):
                    if 'basic_string<' in pr['t'] and re.search(r'\bchar ?\*', strip(at)):
                        self.emit(s, 'strctor', 'std::basic_string', (self.val(s, v),), e)
            self.tick(s)
            o = ('new', t, s.n)
            if f is None:
                for fld in (self.p.classes.get(t) or {}).get('fields', []):
                    if self.kind(fld['t']) == 'cont':
                        self.cinit(s, ('sub', o, fld['n']), (), e)
                if not self.quiet:
                    self.emit(s, 'ctor', t, (o,) + tuple(self.val(s, v) for v in vs), e)
                out.append((s, o))
                continue
            if self.h.boundary(self, {'q': f['q'], 'name': f['name'], 'cls': f.get('cls'), 'fn': f['fn'], 'ctor': True}):
                self.emit(s, 'ctor', t, (o,) + tuple(self.val(s, v) for v in vs), e)
                out.append((s, o))
                continue
            for s2 in self.run_ctor(f, o, vs, s, e):
                out.append((s2, o if not s2.ctl else None))
        return out

    def run_ctor(self, f, o, vs, s, e):
        """states after running constructor f on object o"""
        if len(self.stack) > self.MAXDEPTH:
            raise AnalysisBroken('inlining too deep')
        entry = (s.store, s.cnt)
        self.push(f, o, vs, s)
        sts = [s]
        for i in f.get('inits', []):
            n = []
            for x in sts:
                if x.ctl:
                    n.append(x)
                    continue
                n.extend(self.init_field(i, o, x, f))
            sts = self.merge(n)
        out = []
        for x in sts:
            if x.ctl:
                out.append(x)
            else:
                out.extend(self.exec(f['body'], x))
        res = []
        for x in self.merge(out):
            if x.ctl and x.ctl[0] == 'ret':
                x = x.copy()
                x.ctl = None
            res.append(x)
        self.pop(res)
        self.gc(res, entry, (root(o),))
        return self.merge(res)

    def init_field(self, i, o, s, f):
        e = i['e']
        if i.get('base') or i.get('deleg'):
            if e and e['k'] == 'ctor' and e.get('fn') in self.p.fns and not e.get('copy') and not e.get('move'):
                bf = self.p.fns[e['fn']]
                out = []
                for s2, vs in self.evargs(e['args'], [p['t'] for p in bf['params']], s):
                    if s2.ctl:
                        out.append(s2)
                    else:
                        out.extend(self.run_ctor(bf, o, vs, s2.copy(), e))
                return out
            return [s2 for s2, _ in (self.evlist(e.get('args', []), s) if e and e['k'] == 'ctor' else [(s, None)])]
        name, t = i['f'], i['t']
        k = self.kind(t)
        if i.get('ref') and k in ('val', 'smart', 'func'):
            out = []
            for s2, l in self.lv(e, s):
                if not s2.ctl:
                    s2 = s2.copy()
                    s2.set((o, name), ('ref', l))
                out.append(s2)
            return out
        if k == 'cont' and not i.get('ref') and e['k'] == 'ctor' and not e.get('copy') and not e.get('move'):
            out = []
            for s2, vs in self.evlist(e['args'], s):
                if not s2.ctl:
                    s2 = s2.copy()
                    self.cinit(s2, ('sub', o, name), vs, e)
                out.append(s2)
            return out
        if k == 'obj' and not i.get('ref') and e['k'] == 'ctor':
            so = ('sub', o, name)
            bf = self.p.fns.get(e.get('fn'))
            if bf and not e.get('copy') and not e.get('move'):
                out = []
                for s2, vs in self.evargs(e['args'], [p['t'] for p in bf['params']], s):
                    if s2.ctl:
                        out.append(s2)
                    else:
                        out.extend(self.run_ctor(bf, so, vs, s2.copy(), e))
                return out
            out = []
            for s2, vs in self.evlist(e['args'], s):
                if not s2.ctl:
                    s2 = s2.copy()
                    self.emit(s2, 'ctor', strip(t), (so,) + vs, e)
                    r = self.model('ctor', e, s2, so, vs)
                    if r is not None:
                        out.extend(x for x, _ in r)
                        continue
                out.append(s2)
            return out
        out = []
        for s2, v in self.eval(e, s):
            if not s2.ctl:
                s2 = s2.copy()
                if not self.quiet:
                    self.emit(s2, 'init', name, (o, v), e)
                if i.get('ref') or k not in ('obj', 'cont'):
                    s2.set((o, name), v)
                else:
                    s2.set((o, name), v)
            out.append(s2)
        return out

    # ------------------------------------------------------- containers
    def cver(self, st, c):
        return st.store.get((c, '#v'), C(0))

    def hastruth(self, st, c, has):
        if st.facts.decide_eq(self.csize(st, c), C(0)) is True:
            s = self.assume(st.copy(), '==', has, C(0))
            return [(s if s is not None else st, False)]
        return self.truth(st, has, 'bool')

    def csize(self, st, c):
        v = st.store.get((c, '#n'))
        if v is not None:
            return v
        return ('app', 'size', c, self.cver(st, c))

    def cmethod_clear(self, st, c, e):
        s = st.copy()
        self.emit(s, 'cont', 'clear', (c,), e)
        self.cbump(s, c)
        s.set((c, '#n'), C(0))
        s.set((c, '#items'), ('items',))
        return [(s, C(0))]

    def cbump(self, st, c):
        self.tick(st)
        s = {k: v for k, v in st.store.items() if not (k[0] == c and len(k) == 2 and isinstance(k[1], tuple))}
        s[(c, '#v')] = ('ver', st.n)
        st.store = s

    def cinit(self, st, c, vs, e):
        st.set((c, '#n'), C(0))
        if not vs:
            st.set((c, '#items'), ('items',))
            return
        if len(vs) == 1 and vs[0][0] == 'ilist':
            st.set((c, '#items'), ('items',) + vs[0][1:])
            st.set((c, '#n'), C(len(vs[0]) - 1))
            return
        if vs[0][0] == 'it' and len(vs) >= 2 and vs[1][0] == 'it':
            st.set((c, '#n'), sub(vs[1][3], vs[0][3]))
            st.set((c, '#from'), ('range', vs[0], vs[1]))
            return
        st.set((c, '#n'), vs[0])

    def ccopy(self, st, src):
        self.tick(st)
        c = ('new', 'copy', st.n)
        st.set((c, '#n'), self.csize(st, src))
        it = st.store.get((src, '#items'))
        if it is not None:
            st.set((c, '#items'), it)
        st.set((c, '#copyof'), ('copyof', src, self.cver(st, src)))
        return c

    def celem(self, st, c, i):
        i = st.facts.canon(i)
        v = st.store.get((c, ('#e', i)))
        if v is not None:
            return v
        it = st.store.get((c, '#items'))
        if it is not None and i[0] == 'c' and 0 <= i[1] < len(it) - 1:
            return it[1 + i[1]]
        return ('app', 'elem', c, self.cver(st, c), i)

    def cset(self, st, c, i, v, e):
        i = st.facts.canon(i)
        self.emit(st, 'cont', 'set', (c, i, v), e)
        s = {k: x for k, x in st.store.items()
             if not (k[0] == c and len(k) == 2 and (isinstance(k[1], tuple) or k[1] == '#items'))}
        s[(c, ('#e', i))] = v
        st.store = s

    def container(self, e, st, c, args, name, t, want_lv):
        """std container member functions"""
        isset = 'set<' in t.split('<')[0] + '<'
        ismap = 'map<' in t.split('<')[0] + '<'
        v = self.cver(st, c)
        one = lambda x, s=st: [(s, x)]
        if name in ('size', 'length'):
            return one(self.csize(st, c))
        if name == 'empty':
            r = [(s, C(1 if b else 0)) for s, b in self.compare(st, '==', self.csize(st, c), C(0))]
            return r
        if name in ('begin', 'cbegin'):
            return one(('it', c, v, C(0)))
        if name in ('end', 'cend'):
            return one(('it', c, v, self.csize(st, c)))
        if name in ('rbegin', 'crbegin'):
            return one(('opaque', 'rit', c, C(0)))
        if name in ('rend', 'crend'):
            return one(('opaque', 'rit', c, C(1)))
        if name in ('find',):
            k = args[0]
            return one(('it', c, v, ('app', 'pos', c, v, st.facts.canon(k))))
        if name in ('count', 'contains'):
            has = ('app', 'has', c, v, st.facts.canon(args[0]))
            return [(s, C(1 if b else 0)) for s, b in self.hastruth(st, c, has)]
        if name in ('at', 'operator[]'):
            i = args[0]
            if ismap:
                lv = ('E', c, ('app', 'pos', c, v, st.facts.canon(i)))
                el = self.celem(st, c, lv[2])
                lv = ('F', el, 'second', '')
                self.emit(st, 'cont', name, (c, i), e)
            else:
                lv = ('E', c, i)
                self.emit(st, 'cont', name, (c, i), e)
            return [(st, lv)] if want_lv else one(self.read(st, lv, e))
        if name in ('front', 'back'):
            i = C(0) if name == 'front' else sub(self.csize(st, c), C(1))
            lv = ('E', c, i)
            self.emit(st, 'cont', name, (c,), e)
            return [(st, lv)] if want_lv else one(self.read(st, lv, e))
        if name == 'emplace' and not isset and not ismap and not (args and args[0][0] == 'it'):
            name = 'emplace_back'
        if name in ('push_back', 'emplace_back', 'push', 'emplace_front', 'push_front'):
            if len(args) > 1 or name == 'emplace_back' and not args:
                x = ('valobj', 'emplaced') + tuple(args)
            else:
                x = args[0]
            s = st.copy()
            n = self.csize(s, c)
            self.emit(s, 'cont', 'push', (c, x, n), e)
            it = s.store.get((c, '#items'))
            self.cbump(s, c)
            s.set((c, '#n'), add(n, C(1)))
            if it is not None and len(it) < 8 and name in ('push_back', 'emplace_back', 'push'):
                s.set((c, '#items'), it + (x,))
            elif it is not None:
                st2 = dict(s.store)
                st2.pop((c, '#items'), None)
                s.store = st2
            return [(s, C(0))]
        if name in ('pop', 'pop_back', 'pop_front'):
            s = st.copy()
            n = self.csize(s, c)
            self.emit(s, 'cont', 'pop', (c,), e)
            self.cbump(s, c)
            st2 = dict(s.store)
            st2.pop((c, '#items'), None)
            st2[(c, '#n')] = sub(n, C(1))
            s.store = st2
            return [(s, C(0))]
        if name == 'clear':
            return self.cmethod_clear(st, c, e)
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if (isset or ismap):
                if ismap and args and args[0][0] == 'pair':
                    key, x = args[0][1], args[0][2]
                elif ismap and len(args) == 2:
                    key, x = args
                else:
                    key = x = args[0]
                out = []
                has = ('app', 'has', c, v, st.facts.canon(key))
                for s, b in self.hastruth(st, c, has):
                    s = s.copy()
                    self.emit(s, 'cont', 'insert', (c, key, x, C(1 if b else 0)), e)
                    if not b:
                        n = self.csize(s, c)
                        self.cbump(s, c)
                        st2 = dict(s.store)
                        st2.pop((c, '#items'), None)
                        st2[(c, '#n')] = add(n, C(1))
                        s.store = st2
                        s2 = self.assume(s, '==', ('app', 'has', c, self.cver(s, c), s.facts.canon(key)), C(1))
                        s = s2 if s2 is not None else s
                    out.append((s, ('pair', ('it', c, self.cver(s, c), ('app', 'pos', c, self.cver(s, c), key)),
                                    C(0 if b else 1))))
                return out
            # sequence insert
            s = st.copy()
            self.emit(s, 'cont', 'insertrange' if len(args) == 3 else 'insertat', (c,) + tuple(args), e)
            n = self.csize(s, c)
            self.cbump(s, c)
            st2 = dict(s.store)
            it = st2.pop((c, '#items'), None)
            if len(args) == 3 and args[1][0] == 'it':
                st2[(c, '#n')] = add(n, sub(args[2][3], args[1][3]))
                if it == ('items',):
                    st2[(c, '#from')] = ('range', args[1], args[2])
            elif len(args) == 2:
                st2[(c, '#n')] = add(n, C(1))
            else:
                self.tick(s)
                st2[(c, '#n')] = ('sym', 'size', s.n)
            s.store = st2
            return [(s, ('it', c, self.cver(s, c), args[0][3] if args and args[0][0] == 'it' else C(0)))]
        if name == 'erase':
            s = st.copy()
            self.emit(s, 'cont', 'erase', (c,) + tuple(args), e)
            n = self.csize(s, c)
            self.cbump(s, c)
            st2 = dict(s.store)
            st2.pop((c, '#items'), None)
            if len(args) == 2:
                st2[(c, '#n')] = sub(n, sub(args[1][3], args[0][3])) if args[0][0] == 'it' and args[1][0] == 'it' \
                    else ('sym', 'size', s.n)
            elif args[0][0] == 'it':
                st2[(c, '#n')] = sub(n, C(1))
            else:
                self.tick(s)
                st2[(c, '#n')] = ('sym', 'size', s.n)
            s.store = st2
            self.tick(s)
            return [(s, ('it', c, self.cver(s, c), args[0][3] if args[0][0] == 'it' else ('sym', 'pos', s.n)))]
        if name == 'swap':
            s = st.copy()
            o = args[0]
            self.emit(s, 'cont', 'swap', (c, o), e)
            if isset or ismap:
                for x, y in ((c, o), (o, c)):
                    if holds0(s, self.csize(s, y)):
                        self.emit(s, 'cont', 'clear', (x,), e)
            a = {k[1]: x for k, x in s.store.items() if k[0] == c and len(k) == 2}
            b = {k[1]: x for k, x in s.store.items() if k[0] == o and len(k) == 2}
            if '#n' not in a:
                a['#n'] = self.csize(s, c)
            if '#n' not in b:
                b['#n'] = self.csize(s, o)
            st2 = {k: x for k, x in s.store.items() if not (k[0] in (c, o) and len(k) == 2)}
            for kk, x in a.items():
                st2[(o, kk)] = x
            for kk, x in b.items():
                st2[(c, kk)] = x
            st2[(o, '#swapof')] = ('swapof', c, v)
            s.n += 2
            st2[(c, '#v')] = ('ver', s.n)
            st2[(o, '#v')] = ('c', s.n - 1)
            s.store = st2
            return [(s, C(0))]
        if name == 'operator=':
            src = args[0]
            if (isset or ismap) and src != c and holds0(st, self.csize(st, src)):
                return self.cmethod_clear(st, c, e)
            s = st.copy()
            self.emit(s, 'cont', 'assign', (c,) + tuple(args), e)
            self.cbump(s, c)
            st2 = {k: x for k, x in s.store.items() if not (k[0] == c and len(k) == 2 and k[1] in ('#items', '#n', '#from'))}
            for kk in ('#items', '#n', '#from'):
                if (src, kk) in s.store:
                    st2[(c, kk)] = s.store[(src, kk)]
            st2.setdefault((c, '#n'), self.csize(s, src))
            s.store = st2
            return [(s, c)]
        if name in ('resize', 'assign'):
            s = st.copy()
            self.emit(s, 'cont', name, (c,) + tuple(args), e)
            self.cbump(s, c)
            st2 = dict(s.store)
            st2.pop((c, '#items'), None)
            st2[(c, '#n')] = args[0]
            s.store = st2
            return [(s, C(0))]
        if name == 'reserve':
            s = st.copy()
            self.emit(s, 'cont', name, (c,) + tuple(args), e)
            return [(s, C(0))]
        if name in ('capacity', 'shrink_to_fit', 'data', 'max_size', 'bucket_count'):
            return one(('app', name, c))
        if name not in ('lower_bound', 'upper_bound', 'equal_range', 'key_comp', 'get_allocator') and c[0] != 'new':
            self.imprecise.add(('container ' + name, self.site(e)))
        s = st.copy()
        self.scramble(s, c)
        return [(s, self.fresh(s, name))]

    # ------------------------------------------------------- calls
    def push(self, f, this, vs, st):
        self.stack.append(f)
        self.path.append(self.curln)
        self.fns_seen.add(f['fn'])
        fr = {}
        if this is not None:
            fr['this'] = this
        for p, v in zip(f['params'], vs):
            if v is None:
                v = ('sym', 'arg')
            if v[0] == 'lv':
                if p['ref'] and self.kind(p['t']) in ('val', 'smart', 'func', 'lock'):
                    l = v[1]
                    if l[0] == 'V':
                        fr[p['id']] = l[1]
                    else:
                        fr[p['id']] = ('ref', l)
                else:
                    fr[p['id']] = self.read(st, v[1])
            else:
                fr[p['id']] = v
        st.frames = st.frames + (fr,)

    def pop(self, sts):
        self.stack.pop()
        self.curln = self.path.pop()
        for s in sts:
            s.frames = s.frames[:-1]

    def inline(self, f, this, vs, st, e, want_lv=False, extra=None):
        """run a repository function; -> [(state, value)]"""
        if len(self.stack) > self.MAXDEPTH or sum(1 for x in self.stack if x['fn'] == f['fn']) >= 2:
            self.imprecise.add(('recursion ' + f['q'], self.site(e)))
            s = st.copy()
            self.emit(s, 'recursion', f['q'], (), e)
            return [(s, ('V', self.fresh(s, 'rec')) if want_lv else self.fresh(s, 'rec'))]
        self.stats['calls_inlined'] += 1
        s = st.copy()
        entry = (s.store, s.cnt)
        self.push(f, this, vs, s)
        if extra:
            fr = dict(s.frames[-1])
            fr.update(extra)
            s.frames = s.frames[:-1] + (fr,)
        outs = self.exec(f['body'], s)
        res = []
        for x in outs:
            if x.ctl and x.ctl[0] == 'ret':
                v = x.ctl[1]
                l = x.ctl[2] if len(x.ctl) > 2 else None
                x = x.copy()
                if l is not None and want_lv:
                    if l[0] == 'L' and l[1] >= len(x.frames) - 1:
                        l = ('V', v)
                    x.ctl = ('val', ('V', v) if l[0] == 'V' else l)
                else:
                    x.ctl = ('val', ('V', v) if want_lv else v)
            elif not x.ctl:
                x = x.copy()
                x.ctl = ('val', ('V', C(0)) if want_lv else C(0))
            else:
                x = x.copy()
            res.append(x)
        self.pop(res)
        self.gc(res, entry)
        out = []
        for x in self.merge(res):
            if x.ctl and x.ctl[0] == 'val':
                v = x.ctl[1]
                x.ctl = None
                out.append((x, v))
            else:
                out.append((x, None))
        return out

    def call_lambda(self, lam, vs, st, e, want_lv=False):
        f = self.p.fns.get(lam[1])
        if f is None:
            s = st.copy()
            self.emit(s, 'invoke', 'lambda', (lam,) + tuple(self.val(s, v) for v in vs), e)
            return [(s, self.fresh(s, 'lamret'))]
        return self.inline(f, lam[3], vs, st, e, want_lv, extra=dict(lam[2]))

    def invoke(self, fv, vs, st, e, want_lv=False):
        if fv[0] == 'lam':
            return self.call_lambda(fv, vs, st, e, want_lv)
        if fv[0] == 'fnref' and fv[1] in self.p.fns:
            return self.inline(self.p.fns[fv[1]], None, vs, st, e, want_lv)
        s = st.copy()
        self.emit(s, 'invoke', 'function', (fv,) + tuple(self.val(s, v) for v in vs), e)
        out = [(s, self.fresh(s, 'invret', False))]
        return self.throws(st, out, e, 'invoke')

    def throws(self, before, out, e, what):
        """external calls inside a try block may throw"""
        if before.tryd and self.h.maythrow:
            s = before.copy()
            self.h.on_throw(self, s, what, e)
            s.ctl = ('exc', 'ext')
            return out + [(s, None)]
        return out

    def model(self, what, e, st, obj, args, **kw):
        for m in self.models:
            r = m(self, what, e, st, obj, args, **kw)
            if r is not None:
                return r
        return None

    def e_call(self, e, st):
        return self.call(e, st)

    def wrap(self, rs, want_lv):
        if not want_lv:
            return rs
        return [(s, ('V', v) if v is not None else None) for s, v in rs]

    def call(self, e, st, want_lv=False):
        q = e.get('q', '')
        name = e.get('name', '')
        if 'ind' in e:
            out = []
            for s, fv in self.eval(e['ind'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                for s2, vs in self.evlist(e['args'], s):
                    if s2.ctl:
                        out.append((s2, None))
                    else:
                        out.extend(self.wrap(self.invoke(fv, vs, s2, e), want_lv))
            return out
        if name in ('move', 'forward') and q in ('std::move', 'std::forward') or q in ('std::ref', 'std::cref', 'std::as_const'):
            return self.lv(e['args'][0], st) if want_lv else self.eval(e['args'][0], st)
        f = self.p.fns.get(e.get('fn'))
        if e.get('inrepo'):
            return self.repo_call(e, st, f, want_lv)
        return self.ext_call(e, st, want_lv)

    def skip_args(self, args):
        """true when evaluating the argument expressions can have no effect we track"""
        def eff(n):
            if isinstance(n, dict):
                k = n.get('k')
                if k in ('asg', 'throw', 'new', 'del', 'lam'):
                    return True
                if k == 'un' and n.get('op') in ('++', '--'):
                    return True
                return any(eff(v) for v in n.values() if isinstance(v, (dict, list)))
            if isinstance(n, list):
                return any(eff(v) for v in n)
            return False
        return not eff(args)

    def repo_call(self, e, st, f, want_lv):
        q, name = e['q'], e['name']
        cls = e.get('cls', '')
        # logging has no effect on the properties; its arguments are pure
        if cls == 'cornerstone::logger' and name in ('debug', 'info', 'warn', 'err'):
            if self.h.logs:
                return self.wrap([(s2, C(0) if not s2.ctl else None) for s2, vs in self.evargs(e['args'], e.get('pt', []), st)], want_lv)
            if not self.h_log(e) and self.skip_args(e['args']):
                return self.wrap([(st, C(0))], want_lv)
        if cls.startswith('cornerstone::strfmt') or q.startswith('cornerstone::strfmt'):
            if self.h.logs:
                return self.wrap([(s2, ('str', 'fmt') if not s2.ctl else None) for s2, vs in
                                  self.evargs(e['args'], [a.get('t', '') for a in e['args']], st)], want_lv)
            if self.skip_args(e['args']):
                return self.wrap([(st, ('str', 'fmt'))], want_lv)
        bound = self.h.boundary(self, e)
        pts = e.get('pt', [])
        out = []
        objs = [(st, None)]
        if 'obj' in e and not e.get('static'):
            objs = self.obj(e['obj'], st)
        for s, o in objs:
            if s.ctl:
                out.append((s, None))
                continue
            target = f
            if e.get('virt') and not bound:
                ov = self.p.overriders.get(e['fn'], [])
                if f is None and len(ov) == 1:
                    target = self.p.fns[ov[0]]
                elif f is None or ov:
                    bound_here = True
                    target = None if (f is None or o is None or o[0] != 'new') else f
                    if o is not None and o[0] == 'new':
                        t2 = self.resolve(e['fn'], o[1])
                        target = t2 or target
            if bound or target is None:
                for s2, vs in self.evargs(e['args'], pts, s):
                    if s2.ctl:
                        out.append((s2, None))
                        continue
                    s2 = s2.copy()
                    self.stats['boundary_calls'] += 1
                    vals = tuple(self.val(s2, v) for v in vs)
                    pre = s2.copy()
                    self.emit(s2, 'call', short(q), (o,) + vals if o is not None else vals, e)
                    r = self.model('call', e, s2, o, vs)
                    if r is None:
                        self.tick(s2)
                        t = strip(e['t'])
                        if t == 'void':
                            v = C(0)
                        else:
                            v = ('sym', name, s2.n)
                            if t.startswith('unsigned'):
                                NNSET.add(v)
                        r = [(s2, v)]
                    r = self.throws(pre, r, e, q)
                    out.extend(self.wrap(r, want_lv) if not (want_lv and r and r[0][1] is not None and r[0][1][0] in ('F', 'L', 'E', 'V')) else r)
                continue
            pts2 = [p['t'] for p in target['params']]
            for s2, vs in self.evargs(e['args'], pts2, s):
                if s2.ctl:
                    out.append((s2, None))
                elif o is not None and o[0] == 'lam':
                    out.extend(self.call_lambda(o, vs, s2, e, want_lv))
                else:
                    out.extend(self.inline(target, o, vs, s2, e, want_lv))
        return out

    def h_log(self, e):
        return getattr(self.h, 'log_events', False)

    def resolve(self, fn, cls):
        for x in self.p.overriders.get(fn, []):
            f = self.p.fns[x]
            if f['q'].rsplit('::', 1)[0] == cls:
                return f
        return None

    # ---- external functions
    def ext_call(self, e, st, want_lv):
        q, name, op = e.get('q', ''), e.get('name', ''), e.get('op')
        cls = e.get('cls', '')
        args = e['args']
        ot = strip(e['obj'].get('t', '')) if 'obj' in e else ''
        if ot.endswith('*') and e.get('arrow'):
            ot2 = strip(ot[:-1])
        else:
            ot2 = ot
        okind = self.kind(ot2) if ot2 else ''
        if 'obj' in e and not e.get('static'):
            if okind == 'smart' or cls.startswith('std::__shared_ptr') or cls.startswith('std::unique_ptr') or cls.startswith('std::shared_ptr'):
                return self.smart(e, st, want_lv)
            if okind == 'func' and cls.startswith('std::function'):
                return self.function(e, st, want_lv)
            if okind == 'lock':
                return self.wrap(self.lockop(e, st), want_lv)
            if cls.startswith('std::atomic') or cls.startswith('std::__atomic'):
                return self.wrap(self.atomic(e, st), want_lv)
            if okind == 'cont':
                out = []
                for s, c in self.obj(e['obj'], st):
                    if s.ctl:
                        out.append((s, None))
                        continue
                    if self.is_iter(c):
                        c = c
                    for s2, vs in self.evlist(args, s):
                        if s2.ctl:
                            out.append((s2, None))
                            continue
                        r = self.container(e, s2, c, vs, name, ot2, want_lv)
                        if want_lv and r and r[0][1][0] in ('E', 'F') and name in ('at', 'operator[]', 'front', 'back'):
                            out.extend(r)
                        else:
                            out.extend(self.wrap(r, want_lv))
                return out
            if 'iterator' in cls or 'iterator' in ot2 or '_Node_' in cls:
                return self.iterator(e, st, want_lv)
            if ot2.startswith('std::mutex') or 'mutex' in ot2.split('<')[0]:
                if name in ('lock', 'lock_shared', 'unlock', 'unlock_shared', 'try_lock'):
                    out = []
                    for s, m in self.obj(e['obj'], st):
                        if s.ctl:
                            out.append((s, None))
                            continue
                        s = s.copy()
                        if name.startswith('lock'):
                            self.acquire(s, m, 'r' if 'shared' in name else 'w', ot2, e)
                        elif name.startswith('unlock'):
                            self.release(s, m, e)
                        out.append((s, C(0)))
                    return self.wrap(out, want_lv)
            if ot2.startswith('std::condition_variable'):
                return self.wrap(self.condvar(e, st), want_lv)
        if q.startswith('std::operator') or q.startswith('__gnu_cxx::operator') or q.startswith('std::__detail::operator') \
                or op in ('==', '!=', '<', '>', '<=', '>='):
            if op in self.NEG:
                es = ([e['obj']] if 'obj' in e else []) + args
                out = []
                for s, vs in self.evlist(es, st):
                    if s.ctl:
                        out.append((s, None))
                    elif len(vs) == 2:
                        out.extend((s2, C(1 if b else 0)) for s2, b in self.compare(s, op, vs[0], vs[1]))
                return self.wrap(out, want_lv)
        if q in ('std::min', 'std::max') and len(args) == 2:
            out = []
            for s, vs in self.evlist(args, st):
                if s.ctl:
                    out.append((s, None))
                    continue
                a, b = vs
                for s2, t in self.compare(s, '<=', a, b):
                    out.append((s2, (a if t else b) if q == 'std::min' else (b if t else a)))
            return self.wrap(out, want_lv)
        if q in ('std::make_shared', 'std::make_unique'):
            t = e['targs'][0]
            out = []
            argt = [a.get('t', '') for a in args]
            k = self.kind(t)
            if k == 'obj' and t in self.p.classes:
                for s, vs in self.evargs(args, [x + '&' if not REF.search(x) else x for x in argt], st):
                    if s.ctl:
                        out.append((s, None))
                    else:
                        out.extend(self.construct(t, None, None, s, e, vals=vs, argt=argt))
            else:
                for s, vs in self.evlist(args, st):
                    if s.ctl:
                        out.append((s, None))
                        continue
                    s = s.copy()
                    self.tick(s)
                    o = ('new', strip(t), s.n)
                    if k == 'cont':
                        self.cinit(s, o, vs, e)
                    out.append((s, o))
            return self.wrap(out, want_lv)
        if q == 'std::make_pair':
            out = [(s, ('pair',) + vs if not s.ctl else None) for s, vs in self.evlist(args, st)]
            return self.wrap(out, want_lv)
        if q == 'std::swap' and len(args) == 2:
            out = []
            for s, l1 in self.lv(args[0], st):
                for s2, l2 in self.lv(args[1], s):
                    s2 = s2.copy()
                    a, b = self.read(s2, l1, e), self.read(s2, l2, e)
                    if self.kind(args[0]['t']) == 'cont':
                        out.extend(self.container(e, s2, a, (b,), 'swap', strip(args[0]['t']), False))
                    else:
                        self.write(s2, l1, b, e)
                        self.write(s2, l2, a, e)
                        out.append((s2, C(0)))
            return self.wrap(out, want_lv)
        if name in ('shared_from_this', 'weak_from_this'):
            return self.wrap(self.obj(e['obj'], st), want_lv)
        if q in ('std::sort', 'std::stable_sort', 'std::nth_element', 'std::partial_sort', 'std::reverse'):
            return self.wrap(self.sort(e, st), want_lv)
        if q in ('exit', 'abort', 'std::exit', 'std::abort', '_exit', 'std::terminate', 'std::quick_exit'):
            out = []
            for s, vs in self.evlist(args, st):
                s = s.copy()
                self.emit(s, 'exit', q, vs, e)
                if not s.ctl:
                    s.ctl = ('exit',)
                out.append((s, None))
            return out
        if q in ('std::for_each', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::count_if', 'std::copy_if',
                 'std::remove_if', 'std::find_if_not', 'std::transform', 'std::copy'):
            return self.wrap(self.algo(e, st), want_lv)
        if q in ('std::back_inserter', 'std::front_inserter', 'std::inserter') and args and self.kind(args[0]['t']) == 'cont':
            return self.wrap([(s, ('opaque', 'ins', vs[0], strip(args[0]['t'])) if not s.ctl else None)
                              for s, vs in self.evlist(args, st)], want_lv)
        if q in ('std::next', 'std::prev') or q == 'std::advance':
            out = []
            for s, vs in self.evlist(args, st):
                if s.ctl:
                    out.append((s, None))
                    continue
                d = vs[1] if len(vs) > 1 else C(1)
                if q == 'std::prev':
                    d = scale(d, -1)
                out.append((s, self.arith('+', vs[0], d)))
            return self.wrap(out, want_lv)
        if q in ('std::begin', 'std::end', 'std::size') and args and self.kind(args[0]['t']) == 'cont':
            out = []
            for s, vs in self.evlist(args, st):
                out.extend(self.container(e, s, vs[0], (), name, strip(args[0]['t']), False) if not s.ctl else [(s, None)])
            return self.wrap(out, want_lv)
        if q == 'std::exchange':
            out = []
            for s, l in self.lv(args[0], st):
                for s2, v in self.eval(args[1], s):
                    s2 = s2.copy()
                    old = self.read(s2, l, e)
                    self.write(s2, l, v, e)
                    out.append((s2, old))
            return self.wrap(out, want_lv)
        if q == 'std::distance':
            out = []
            for s, vs in self.evlist(args, st):
                out.append((s, self.arith('-', vs[1], vs[0]) if not s.ctl else None))
            return self.wrap(out, want_lv)
        # generic external call
        pts = e.get('pt', [])
        out = []
        objs = [(st, None)]
        objlv = None
        if 'obj' in e and not e.get('static'):
            objs = self.lv(e['obj'], st)
        for s, ol in objs:
            if s.ctl:
                out.append((s, None))
                continue
            o = None
            if ol is not None:
                o = self.read(s, ol, e)
            for s2, vs in self.evargs(args, pts, s):
                if s2.ctl:
                    out.append((s2, None))
                    continue
                s2 = s2.copy()
                vals = tuple(self.val(s2, v) for v in vs)
                pre = s2.copy()
                r = self.model('ext', e, s2, o, vs, objlv=ol)
                if r is not None:
                    out.extend(self.wrap(r, want_lv))
                    continue
                self.emit(s2, 'ext', q, ((o,) if o is not None else ()) + vals, e)
                # value types: const methods are functions of their arguments
                pure = (e.get('const') and o is not None) or q.startswith('std::operator') or q in PURE
                if pure:
                    if name == 'size' and 'basic_string' in q:
                        name = 'length'
                    v = ('app', name if not q.startswith('std::chrono') else 'chrono:' + name) + \
                        ((o,) if o is not None else ()) + vals
                    if name in ('length', 'size'):
                        NNSET.add(v)
                else:
                    v = self.fresh(s2, name)
                    # non-const reference arguments may be overwritten
                    for i, a in enumerate(vs):
                        if a[0] == 'lv' and i < len(pts) and REF.search(pts[i]) and not pts[i].startswith('const') \
                                and '&&' not in pts[i] and a[1][0] != 'V' and self.kind(pts[i]) == 'val':
                            self.write(s2, a[1], self.fresh(s2, name + '.out'), e)
                    if o is not None and okind == 'val' and ol and ol[0] in ('L', 'F') and not e.get('const'):
                        nv = self.fresh(s2, name + '.self')
                        self.write(s2, ol, nv, e)
                        if op in ('=', '+=', '-=', '++', '--') or name.startswith('operator'):
                            if op == '=' and vals:
                                self.write(s2, ol, vals[0], e)
                                nv = vals[0]
                            v = nv
                    # callbacks handed to unknown code may run any number of times: not here
                if strip(e['t']) == 'void':
                    v = C(0)
                r = [(s2, v)]
                if not pure and q not in NOTHROW:
                    r = self.throws(pre, r, e, q)
                out.extend(self.wrap(r, want_lv))
        return out

    def is_iter(self, v):
        return v is not None and v[0] == 'it'

    def smart(self, e, st, want_lv):
        name = e.get('name', '')
        out = []
        if name in ('operator->', 'operator*', 'get', 'operator bool', 'use_count', 'lock', 'release', 'unique'):
            for s, v in self.eval(e['obj'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                if name == 'operator bool':
                    out.extend((s2, C(1 if b else 0)) for s2, b in self.truth(s, v, 'ptr'))
                elif name in ('operator->', 'operator*'):
                    if not self.quiet:
                        self.emit(s, 'deref', name, (v,), e)
                    out.append((s, v))
                elif name == 'use_count':
                    out.append((s, ('app', 'use_count', v)))
                else:
                    out.append((s, v))
            return self.wrap(out, want_lv)
        if name in ('operator=', 'reset', 'swap'):
            for s, vs in (self.evlist(e['args'][:1], st) if name != 'swap' else [(st, ())]):
                if s.ctl:
                    out.append((s, None))
                    continue
                for s2, l in self.lv(e['obj'], s):
                    if s2.ctl:
                        out.append((s2, None))
                        continue
                    s2 = s2.copy()
                    if name == 'swap':
                        for s3, l2 in self.lv(e['args'][0], s2):
                            a, b = self.read(s3, l, e), self.read(s3, l2, e)
                            s3 = s3.copy()
                            self.write(s3, l, b, e)
                            self.write(s3, l2, a, e)
                            out.append((s3, C(0)))
                        continue
                    v = vs[0] if vs else NULL
                    if vs and v[0] == 'valobj':
                        v = NULL
                    self.write(s2, l, v, e)
                    # a moved-from unique_ptr / shared_ptr argument is left as is (never read in this code base)
                    out.append((s2, l if want_lv else v))
            return out
        for s, v in self.eval(e['obj'], st):
            out.append((s, self.fresh(s, name)))
        return self.wrap(out, want_lv)

    def function(self, e, st, want_lv):
        name = e.get('name', '')
        out = []
        if name == 'operator()':
            for s, fv in self.eval(e['obj'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                pts = e.get('pt', [])
                if fv[0] == 'lam' and fv[1] in self.p.fns:
                    pts = [p['t'] for p in self.p.fns[fv[1]]['params']]
                for s2, vs in self.evargs(e['args'], pts, s):
                    if s2.ctl:
                        out.append((s2, None))
                    else:
                        out.extend(self.wrap(self.invoke(fv, vs, s2, e), want_lv))
            return out
        if name == 'operator bool':
            for s, v in self.eval(e['obj'], st):
                out.extend((s2, C(1 if b else 0)) for s2, b in self.truth(s, v, 'ptr'))
            return self.wrap(out, want_lv)
        if name in ('operator=', 'swap'):
            for s, v in self.eval(e['args'][0], st):
                for s2, l in (self.lv(e['obj'], s) if not s.ctl else [(s, None)]):
                    if s2.ctl:
                        out.append((s2, None))
                        continue
                    s2 = s2.copy()
                    if name == 'swap':
                        old = self.read(s2, l, e)
                        for s3, l2 in self.lv(e['args'][0], s2):
                            s3 = s3.copy()
                            self.write(s3, l, v, e)
                            self.write(s3, l2, old, e)
                            out.append((s3, C(0)))
                        continue
                    self.write(s2, l, v, e)
                    out.append((s2, v))
            return self.wrap(out, want_lv)
        return self.wrap([(st, ('app', name))], want_lv)

    def iterator(self, e, st, want_lv):
        op = e.get('op')
        out = []
        if op in ('*', '->'):
            for s, v in self.eval(e['obj'], st):
                if s.ctl:
                    out.append((s, None))
                elif v[0] == 'it':
                    self.emit(s, 'cont', 'deref', (v[1], v[3]), e)
                    if want_lv and op == '*':
                        out.append((s, ('E', v[1], v[3])))
                    else:
                        x = self.celem(s, v[1], v[3])
                        out.append((s, ('V', x) if want_lv else x))
                else:
                    x = ('app', 'deref', v)
                    out.append((s, ('V', x) if want_lv else x))
            return out
        if op in ('++', '--', '+=', '-='):
            for s, l in self.lv(e['obj'], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                for s2, vs in self.evlist(e['args'], s):
                    v = self.read(s2, l, e)
                    post = op in ('++', '--') and len(vs) == 1
                    d = vs[0] if vs and not post else C(1)
                    if op in ('--', '-='):
                        d = scale(d, -1)
                    s2 = s2.copy()
                    if v[0] == 'it':
                        nv = ('it', v[1], v[2], add(v[3], d))
                    else:
                        nv = self.fresh(s2, 'iter')
                    self.write(s2, l, nv, e)
                    out.append((s2, (l if want_lv else nv) if not post else (('V', v) if want_lv else v)))
            return out
        if op in ('+', '-'):
            for s, v in self.eval(e['obj'], st):
                for s2, vs in (self.evlist(e['args'], s) if not s.ctl else [(s, ())]):
                    out.append((s2, self.arith(op, v, vs[0]) if not s2.ctl else None))
            return self.wrap(out, want_lv)
        if op == '=':
            for s, vs in self.evlist(e['args'], st):
                for s2, l in (self.lv(e['obj'], s) if not s.ctl else [(s, None)]):
                    if not s2.ctl:
                        s2 = s2.copy()
                        self.write(s2, l, vs[0], e)
                    out.append((s2, l if want_lv else vs[0]))
            return out
        if op in self.NEG:
            for s, vs in self.evlist([e['obj']] + e['args'], st):
                if s.ctl:
                    out.append((s, None))
                else:
                    out.extend((s2, C(1 if b else 0)) for s2, b in self.compare(s, op, vs[0], vs[1]))
            return self.wrap(out, want_lv)
        if op == '[]':
            for s, vs in self.evlist([e['obj']] + e['args'], st):
                if s.ctl:
                    out.append((s, None))
                elif vs[0][0] == 'it':
                    x = self.celem(s, vs[0][1], add(vs[0][3], vs[1]))
                    out.append((s, ('V', x) if want_lv else x))
                else:
                    out.append((s, ('V', ('app', 'deref', vs[0])) if want_lv else ('app', 'deref', vs[0])))
            return out
        for s, v in self.eval(e['obj'], st):
            out.append((s, v))
        return self.wrap(out, want_lv)

    def atomic(self, e, st):
        name = e.get('name', '')
        out = []
        for s, l in self.lv(e['obj'], st):
            if s.ctl:
                out.append((s, None))
                continue
            if name in ('load',) or name.startswith('operator ') :
                out.append((s, self.read(s, l, e)))
                continue
            if name in ('compare_exchange_strong', 'compare_exchange_weak'):
                for s2, el in self.lv(e['args'][0], s):
                    for s3, nv in self.eval(e['args'][1], s2):
                        cur = self.read(s3, l, e)
                        exp = self.read(s3, el, e)
                        for s4, b in self.compare(s3, '==', cur, exp):
                            s4 = s4.copy()
                            self.emit(s4, 'cas', l[2] if l[0] == 'F' else '?', (l[1] if l[0] == 'F' else C(0), exp, nv, C(1 if b else 0)), e)
                            if b:
                                self.write(s4, l, nv, e)
                            else:
                                self.write(s4, el, cur, e)
                            out.append((s4, C(1 if b else 0)))
                continue
            for s2, vs in self.evlist(e['args'], s):
                if s2.ctl:
                    out.append((s2, None))
                    continue
                s2 = s2.copy()
                cur = self.read(s2, l, e)
                if name in ('store', 'operator='):
                    self.write(s2, l, vs[0], e)
                    out.append((s2, vs[0]))
                elif name == 'exchange':
                    self.write(s2, l, vs[0], e)
                    out.append((s2, cur))
                elif name in ('fetch_add', 'operator++', 'operator+='):
                    d = vs[0] if vs and name != 'operator++' else C(1)
                    nv = add(cur, d)
                    self.write(s2, l, nv, e)
                    out.append((s2, cur if name == 'fetch_add' or (name == 'operator++' and vs) else nv))
                elif name in ('fetch_sub', 'operator--', 'operator-='):
                    d = vs[0] if vs and name != 'operator--' else C(1)
                    nv = sub(cur, d)
                    self.write(s2, l, nv, e)
                    out.append((s2, cur if name == 'fetch_sub' or (name == 'operator--' and vs) else nv))
                else:
                    out.append((s2, self.fresh(s2, name)))
        return out

    # ---- locks
    def acquire(self, st, m, mode, t, e):
        m = st.facts.canon(m)
        self.emit(st, 'lock', mode, (m,), e)
        hk = getattr(self.h, 'on_lock', None)
        if hk:
            hk(self, st, m, mode, t, e)
        st.locks = st.locks + ((m, mode),)

    def release(self, st, m, e):
        m = st.facts.canon(m)
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i][0] == m:
                del ls[i]
                break
        st.locks = tuple(ls)
        self.emit(st, 'unlock', '', (m,), e)

    def decl_lock(self, v, st):
        """std::lock_guard & co. declared as a local"""
        t = strip(v['t'])
        e = v.get('init') or {}
        args = e.get('args', []) if e.get('k') == 'ctor' else []
        mode = 'r' if t.startswith('std::shared_lock') else 'w'
        if not args:
            st = st.copy()
            st.setl(len(st.frames) - 1, v['id'], ('lock', NULL, mode, 0, t))
            return [st]
        if e.get('move') or e.get('copy'):
            out = []
            for s, l in self.lv(args[0], st):
                s = s.copy()
                val = self.read(s, l, e)
                s.setl(len(s.frames) - 1, v['id'], val)
                if val[0] == 'lock':
                    self.write(s, l, ('lock', NULL, val[2], 0, val[4]), e)
                out.append(s)
            return out
        tag = strip(args[1]['t']) if len(args) > 1 else ''
        out = []
        for s, m in self.obj(args[0], st):
            if s.ctl:
                out.append(s)
                continue
            s = s.copy()
            held = 1
            if 'defer_lock' in tag:
                held = 0
            elif 'adopt_lock' in tag:
                held = 1
            elif 'try_to_lock' in tag:
                s2 = s.copy()
                s2.setl(len(s2.frames) - 1, v['id'], ('lock', m, mode, 0, t))
                out.append(s2)
                self.acquire(s, m, mode, t, v)
            elif t.startswith('std::scoped_lock') and len(args) > 1:
                for a in args:
                    for s3, mm in self.obj(a, s):
                        self.acquire(s, mm, mode, t, v)
                s.setl(len(s.frames) - 1, v['id'], ('mlock',) + tuple(self.obj(a, s)[0][1] for a in args))
                out.append(s)
                continue
            else:
                self.acquire(s, m, mode, t, v)
            s.setl(len(s.frames) - 1, v['id'], ('lock', m, mode, held, t))
            out.append(s)
        return out

    def lockop(self, e, st):
        name = e.get('name', '')
        out = []
        for s, l in self.lv(e['obj'], st):
            if s.ctl:
                out.append((s, None))
                continue
            v = self.read(s, l, e)
            s = s.copy()
            if v[0] != 'lock':
                out.append((s, self.fresh(s, name)))
                continue
            _, m, mode, held, t = v
            if name == 'unlock':
                if held:
                    self.release(s, m, e)
                self.write(s, l, ('lock', m, mode, 0, t), e)
                out.append((s, C(0)))
            elif name in ('lock', 'try_lock'):
                self.acquire(s, m, mode, t, e)
                self.write(s, l, ('lock', m, mode, 1, t), e)
                out.append((s, C(1)))
            elif name == 'release':
                # the guard lets go of the mutex without unlocking it
                if held:
                    self.emit(s, 'lockleak', '', (m,), e)
                self.write(s, l, ('lock', NULL, mode, 0, t), e)
                out.append((s, m))
            elif name in ('owns_lock', 'operator bool'):
                out.append((s, C(held)))
            elif name == 'mutex':
                out.append((s, m))
            else:
                out.append((s, self.fresh(s, name)))
        return out

    def unlock_var(self, st, v, e):
        if v[0] == 'lock' and v[3]:
            self.release(st, v[1], e)
        elif v[0] == 'mlock':
            for m in v[1:]:
                self.release(st, m, e)

    def condvar(self, e, st):
        name = e.get('name', '')
        out = []
        for s, cv in self.obj(e['obj'], st):
            if s.ctl:
                out.append((s, None))
                continue
            if name.startswith('notify'):
                s = s.copy()
                self.emit(s, 'notify', name, (cv,), e)
                out.append((s, C(0)))
                continue
            if name.startswith('wait'):
                lam = None
                for s2, l in self.lv(e['args'][0], s):
                    vs = ()
                    s3 = s2
                    for a in e['args'][1:]:
                        s3, v = self.eval(a, s3)[0]
                        vs += (v,)
                    if vs and vs[-1][0] in ('lam', 'fnref'):
                        lam = vs[-1]
                    lk = self.read(s3, l, e)
                    s3 = s3.copy()
                    self.emit(s3, 'wait', name, (cv, lk[1] if lk[0] == 'lock' else NULL, C(1 if lam else 0)), e)
                    hk = getattr(self.h, 'on_wait', None)
                    if hk:
                        hk(self, s3, cv, lk, lam, e)
                    # other threads ran while we waited
                    wk = getattr(self.h, 'after_wait', None)
                    if wk:
                        wk(self, s3, e)
                    if lam is not None:
                        # while (!pred()) wait;  -> continue with pred true
                        for s4, b in self.invoke(lam, (), s3, e):
                            if s4.ctl:
                                out.append((s4, None))
                                continue
                            for s5, t in self.truth(s4, b, 'bool'):
                                if t:
                                    out.append((s5, C(1)))
                                elif name != 'wait':
                                    out.append((s5, C(0)))
                    else:
                        out.append((s3, self.fresh(s3, 'cvstatus')))
                continue
            out.append((s, C(0)))
        return out

    def scramble(self, s, c):
        """nothing is known any more about a container"""
        n = self.csize(s, c)
        self.cbump(s, c)
        st2 = {k: x for k, x in s.store.items() if not (k[0] == c and len(k) == 2 and k[1] in ('#items', '#from', '#sorted', '#nth'))}
        self.tick(s)
        st2[(c, '#n')] = ('sym', 'size', s.n)
        NNSET.add(st2[(c, '#n')])
        s.store = st2

    # ---- algorithms
    def sort(self, e, st):
        out = []
        name = e['name']
        for s, vs in self.evlist(e['args'], st):
            if s.ctl:
                out.append((s, None))
                continue
            s = s.copy()
            its = 3 if name in ('nth_element', 'partial_sort') else 2
            rev = its == 2 and all(x[:2] == ('opaque', 'rit') and len(x) > 3 for x in vs[:2]) and vs[0][2] == vs[1][2]
            if vs[0][0] != 'it' and not rev:
                for x in vs[:its]:
                    if x[:2] == ('opaque', 'rit') and len(x) > 2:
                        self.scramble(s, x[2])
                out.append((s, C(0)))
                continue
            c = vs[0][2] if rev else vs[0][1]
            whole = rev and vs[0][3] == C(0) and vs[1][3] == C(1) or \
                not rev and vs[0][3] == C(0) and s.facts.decide_eq(vs[its - 1][3], self.csize(s, c)) is True
            d = 'asc'
            if name == 'reverse':
                cur = s.store.get((c, '#sorted'))
                d = {'asc': 'desc', 'desc': 'asc'}.get(cur[1]) if cur else None
            elif len(vs) > its:
                d = self.direction(vs[its], e['args'][its], s)
            if rev and name != 'reverse':
                d = {'asc': 'desc', 'desc': 'asc'}.get(d)
            self.emit(s, 'sort', name, (c, ('str', str(d)), C(1 if whole else 0)), e)
            src = s.store.get((c, '#n'))
            self.cbump(s, c)
            st2 = dict(s.store)
            st2.pop((c, '#items'), None)
            if whole and d:
                st2[(c, '#sorted')] = ('sorted', d, vs[1][3] if name == 'nth_element' else NULL if name != 'partial_sort' else vs[1][3])
                if name == 'nth_element':
                    st2[(c, '#nth')] = vs[1][3]
            else:
                st2.pop((c, '#sorted'), None)
            s.store = st2
            out.append((s, C(0)))
        return out

    def direction(self, cmp, ce, st):
        t = ce.get('t', '')
        if 'std::greater' in t:
            return 'desc'
        if 'std::less' in t:
            return 'asc'
        if cmp[0] == 'lam' and cmp[1] in self.p.fns:
            a, b = ('sym', 'cmpa'), ('sym', 'cmpb')
            self.quiet += 1
            try:
                r = self.call_lambda(cmp, (('lv', ('V', a)), ('lv', ('V', b))), st, ce)
            finally:
                self.quiet -= 1
            res = set()
            for s, v in r:
                for s2, t in self.truth(s, v):
                    if t and s2.facts.holds(('gt', a, b)):
                        res.add('desc')
                    elif t and s2.facts.holds(('lt', a, b)):
                        res.add('asc')
                    elif t:
                        res.add('?')
            if len(res) == 1:
                return res.pop()
        return None

    def put(self, st, to, v, e):
        """a value stored through an output iterator"""
        if to[:2] == ('opaque', 'ins'):
            t = to[3]
            n = 'insert' if re.match(r'std::(multi)?(set|map)<', t) else 'push_back'
            return [x for x, _ in self.container(e, st, to[2], (v,), n, t, False)]
        st = st.copy()
        if to[0] == 'it':
            self.cbump(st, to[1])
            st2 = {k: x for k, x in st.store.items() if not (k[0] == to[1] and len(k) == 2 and k[1] in ('#items', '#sorted', '#from'))}
            st.store = st2
        return [st]

    def algo(self, e, st):
        """for_each & co: the callable runs once per element, as a loop body"""
        out = []
        name = e['name']
        for s, vs in self.evlist(e['args'], st):
            if s.ctl:
                out.append((s, None))
                continue
            fn = vs[-1] if name != 'copy' else None
            rng = vs[0]
            to = vs[2] if name in ('copy', 'copy_if', 'transform') and len(vs) > 2 else None
            if rng[0] != 'it' or vs[1][0] != 'it' or fn and (fn[0] != 'lam' or fn[1] not in self.p.fns) or \
                    name == 'transform' and len(vs) != 4 or name == 'remove_if':
                s = s.copy()
                self.emit(s, 'ext', e['q'], vs, e)
                for x in (to, rng if name == 'remove_if' else None):
                    if x is not None and (x[:2] == ('opaque', 'ins') or x[0] == 'it'):
                        self.scramble(s, x[2] if x[0] == 'opaque' else x[1])
                out.append((s, self.fresh(s, name)))
                continue
            c, end = rng[1], vs[1][3]
            pt = self.p.fns[fn[1]]['params'][0]['t'] if fn else ''
            key = '$algo%d' % e['ln']
            d = len(s.frames) - 1
            s = s.copy()
            s.setl(d, key, rng[3])
            early = []

            def condf(x):
                return self.compare(x, '<', x.frames[d][key], end)

            def body(x):
                i = x.frames[d][key]
                a = ('lv', ('E', c, i)) if self.kind(pt) in ('val', 'smart', 'func') else self.celem(x, c, i)
                res = []
                el = self.celem(x, c, i)
                for y, v in self.call_lambda(fn, (a,), x, e) if fn else [(x, el)]:
                    if y.ctl:
                        res.append(y)
                        continue
                    if to is not None:
                        if name != 'copy_if':
                            res.extend(self.put(y, to, v, e))
                            continue
                        for z, b in self.truth(y, v):
                            if b and not z.ctl:
                                res.extend(self.put(z, to, el, e))
                            else:
                                res.append(z)
                        continue
                    if name in ('any_of', 'none_of', 'find_if', 'all_of', 'find_if_not'):
                        for z, b in self.truth(y, v):
                            stop = b if name in ('any_of', 'none_of', 'find_if') else not b
                            if stop:
                                z = z.copy()
                                z.ctl = ('break',)
                                z.setl(d, key + 'r', C(1))
                            res.append(z)
                    else:
                        res.append(y)
                return res

            def inc(x):
                x = x.copy()
                x.setl(d, key, add(x.frames[d][key], C(1)))
                return [x]
            for x in self.loop(s, condf, body, inc, e, [], range_of=c):
                r = x.frames[d].get(key + 'r') if len(x.frames) > d else None
                pos = x.frames[d].get(key) if len(x.frames) > d else None
                x = x.copy()
                if len(x.frames) > d:
                    fr = list(x.frames)
                    fr[d] = {k: v for k, v in fr[d].items() if not k.startswith(key)}
                    x.frames = tuple(fr)
                if x.ctl:
                    out.append((x, None))
                elif name == 'any_of':
                    out.append((x, C(1 if r else 0)))
                elif name in ('none_of', 'all_of'):
                    out.append((x, C(0 if r else 1)))
                elif name in ('find_if', 'find_if_not'):
                    out.append((x, ('it', c, self.cver(x, c), pos) if r else ('it', c, self.cver(x, c), end)))
                else:
                    out.append((x, self.fresh(x, name)))
        return out

    # ------------------------------------------------------- statements
    def exec(self, s, st):
        if s is None:
            return [st]
        if st.ctl:
            return [st]
        k = s['k']
        self.curln = s.get('ln', self.curln)
        f = getattr(self, 's_' + k, None)
        if f is None:
            raise AnalysisBroken('unsupported statement %s at %s' % (k, self.site(s)))
        return f(s, st)

    def s_nop(self, s, st):
        return [st]

    def s_expr(self, s, st):
        return self.merge([x for x, _ in self.eval(s['e'], st)])

    def s_block(self, s, st):
        d = len(st.frames) - 1
        before = set(st.frames[d])
        sts = [st]
        for x in s['b']:
            n = []
            for y in sts:
                if y.ctl:
                    n.append(y)
                else:
                    n.extend(self.exec(x, y))
            sts = self.merge(n)
        return self.merge([self.leave(y, d, before, s) for y in sts])

    def leave(self, y, d, before, s):
        fr = y.frames[d]
        gone = [v for v in fr if v not in before]
        if not gone:
            return y
        y = y.copy()
        # destructors run in reverse order
        for v in reversed(gone):
            val = fr[v]
            if val[0] in ('lock', 'mlock'):
                self.unlock_var(y, val, s)
        frs = list(y.frames)
        frs[d] = {k: v for k, v in fr.items() if k in before}
        # keep updates of surviving variables
        y.frames = tuple(frs)
        return y

    def s_decl(self, s, st):
        sts = [st]
        for v in s['vars']:
            n = []
            for x in sts:
                n.extend(self.decl(v, x) if not x.ctl else [x])
            sts = n
        return self.merge(sts)

    def decl(self, v, st):
        k = self.kind(v['t'])
        d = len(st.frames) - 1
        if v.get('static'):
            # initialised once, shared by all calls: its value is unknown here
            return [st]
        if k == 'lock' and not v.get('ref'):
            return self.decl_lock(v, st)
        if 'init' not in v or v['init'] is None:
            st = st.copy()
            st.setl(d, v['id'], ('sym', 'uninit:' + v['n']))
            return [st]
        out = []
        if v.get('ref') and k in ('val', 'smart', 'func'):
            for s, l in self.lv(v['init'], st):
                if not s.ctl:
                    s = s.copy()
                    s.setl(d, v['id'], ('ref', l) if l[0] != 'V' else l[1])
                out.append(s)
            return out
        for s, val in self.eval(v['init'], st):
            if not s.ctl:
                s = s.copy()
                if v.get('binds'):
                    for i, b in enumerate(v['binds']):
                        x = ('fld', val, b['n'])
                        if val[0] == 'pair':
                            x = val[1 + i]
                        elif b.get('e'):
                            pass
                        if val[0] != 'pair':
                            x = self.peek(s, val, 'first' if i == 0 else 'second') if len(v['binds']) == 2 else x
                            if val[0] == 'app' and val[1] == 'elem' and i == 0 and val[4][0] == 'app' and val[4][1] == 'pos':
                                x = val[4][4]
                        s.setl(d, b['id'], x)
                s.setl(d, v['id'], val)
            out.append(s)
        return out

    def s_if(self, s, st):
        d = len(st.frames) - 1
        before = set(st.frames[d])
        sts = self.exec(s['init'], st) if s.get('init') else [st]
        if s.get('cv'):
            sts = [y for x in sts for y in (self.decl(s['cv'], x) if not x.ctl else [x])]
        out = []
        for x in sts:
            if x.ctl:
                out.append(x)
                continue
            tr, fa = [], []
            for y, b in self.cond(s['c'], x):
                if y.ctl:
                    out.append(y)
                elif b:
                    tr.append(y)
                else:
                    fa.append(y)
            # joining before the branch loses nothing the branch can see
            tr, fa = self.merge(tr), self.merge(fa)
            for y in tr:
                out.extend(self.exec(s['a'], y))
            for y in fa:
                out.extend(self.exec(s['e'], y) if s.get('e') else [y])
        if s.get('init') or s.get('cv'):
            out = [self.leave(y, d, before, s) for y in out]
        return self.merge(out)

    def s_ret(self, s, st):
        f = self.stack[-1]
        rt = f.get('ret', 'void')
        if s.get('e') is None:
            st = st.copy()
            st.ctl = ('ret', C(0))
            return [st]
        out = []
        if REF.search(rt) and self.kind(rt) in ('val', 'smart', 'func'):
            for x, l in self.lv(s['e'], st):
                if not x.ctl:
                    x = x.copy()
                    x.ctl = ('ret', self.read(x, l, s), l)
                out.append(x)
            return self.merge(out)
        for x, v in self.eval(s['e'], st):
            if not x.ctl:
                x = x.copy()
                x.ctl = ('ret', v if strip(rt) != 'void' else C(0))
            out.append(x)
        return self.merge(out)

    def s_break(self, s, st):
        st = st.copy()
        st.ctl = ('break',)
        return [st]

    def s_continue(self, s, st):
        st = st.copy()
        st.ctl = ('continue',)
        return [st]

    def s_label(self, s, st):
        return self.exec(s['b'], st)

    def s_goto(self, s, st):
        raise AnalysisBroken('goto at %s' % (self.site(s),))

    def s_unkstmt(self, s, st):
        raise AnalysisBroken('unsupported statement %s at %s' % (s.get('c'), self.site(s)))

    def s_switch(self, s, st):
        d = len(st.frames) - 1
        before = set(st.frames[d])
        sts = self.exec(s['init'], st) if s.get('init') else [st]
        if s.get('cv'):
            sts = [y for x in sts for y in self.decl(s['cv'], x)]
        items = s['items']
        labels = [(i, x) for i, x in enumerate(items) if x['k'] == 'case']
        dflt = [i for i, x in enumerate(items) if x['k'] == 'default']
        out = []
        for x in sts:
            for y, v in (self.eval(s['c'], x) if not x.ctl else [(x, None)]):
                if y.ctl:
                    out.append(y)
                    continue
                rest = y
                entries = []
                for i, l in labels:
                    if rest is None:
                        break
                    lo = int(l['v']['v'])
                    if 'v2' in l:
                        hi = int(l['v2']['v'])
                        t = self.assume(rest, '>=', v, C(lo))
                        t = self.assume(t, '<=', v, C(hi)) if t is not None else None
                        if t is not None:
                            entries.append((i, t))
                        continue
                    t = self.assume(rest, '==', v, C(lo))
                    if t is not None:
                        entries.append((i, t))
                    rest = self.assume(rest, '!=', v, C(lo))
                if rest is not None:
                    entries.append((dflt[0] if dflt else len(items), rest))
                for i, t in entries:
                    cur = [t]
                    for it in items[i:]:
                        if it['k'] in ('case', 'default'):
                            continue
                        n = []
                        for z in cur:
                            n.extend(self.exec(it, z) if not z.ctl else [z])
                        cur = self.merge(n)
                    for z in cur:
                        if z.ctl == ('break',):
                            z = z.copy()
                            z.ctl = None
                        out.append(self.leave(z, d, before, s))
        return self.merge(out)

    def s_try(self, s, st):
        st = st.copy()
        st.tryd += 1
        depth = len(st.frames)
        nst = len(self.stack)
        out = []
        locks = st.locks
        for x in self.exec(s['b'], st):
            x = x.copy()
            x.tryd -= 1
            if x.ctl and x.ctl[0] == 'exc':
                out.extend(self.handle(s, x, depth, locks))
            else:
                out.append(x)
        return self.merge(out)

    def handle(self, s, x, depth, locks):
        t = x.ctl[1]
        out = []
        for h in s['h']:
            if self.catches(h['t'], t):
                y = x.copy()
                y.frames = y.frames[:depth]
                y.ctl = None
                self.emit(y, 'catch', t, (), h)
                d = depth - 1
                before = set(y.frames[d])
                if h.get('v'):
                    y.setl(d, h['v']['id'], ('sym', 'exception'))
                out.extend(self.leave(z, d, before, s) for z in self.exec(h['b'], y))
                if t == 'ext' and strip(h['t']) not in ('...', 'std::exception'):
                    continue    # it may be of another type
                return out
        return out + [x]

    def catches(self, ht, t):
        if ht == '...':
            return True
        ht = strip(ht)
        t = strip(t)
        if t == 'ext':
            return True
        if ht == t:
            return True
        if ht == 'std::exception':
            return t.startswith('std::') and not t.startswith('std::shared_ptr')
        if ht == 'std::runtime_error':
            return t in ('std::overflow_error', 'std::range_error', 'std::ios_base::failure', 'std::underflow_error')
        return False

    # ---- loops
    def s_while(self, s, st):
        d = len(st.frames) - 1

        def condf(x):
            if s.get('cv'):
                res = []
                for y in self.decl(s['cv'], x):
                    res.extend(self.cond(s['c'], y))
                return res
            return self.cond(s['c'], x)
        return self.loop(st, condf, lambda x: self.exec(s['b'], x), None, s, [s['c']])

    def s_for(self, s, st):
        d = len(st.frames) - 1
        before = set(st.frames[d])
        sts = self.exec(s['init'], st) if s.get('init') else [st]
        out = []
        for x in sts:
            if x.ctl:
                out.append(x)
                continue

            def condf(y):
                if s.get('c') is None:
                    return [(y, True)]
                return self.cond(s['c'], y)
            inc = (lambda y: [z for z, _ in self.eval(s['inc'], y)]) if s.get('inc') else None
            for y in self.loop(x, condf, lambda y: self.exec(s['b'], y), inc, s, [s.get('c')]):
                out.append(self.leave(y, d, before, s))
        return self.merge(out)

    def s_do(self, s, st):
        out = []
        n = []
        for x in self.exec(s['b'], st):
            if x.ctl == ('break',):
                x = x.copy()
                x.ctl = None
                out.append(x)
            elif x.ctl and x.ctl != ('continue',):
                out.append(x)
            else:
                x = x.copy()
                x.ctl = None
                n.append(x)
        for x in self.merge(n):
            out.extend(self.loop(x, lambda y: self.cond(s['c'], y), lambda y: self.exec(s['b'], y), None, s, [s['c']]))
        return self.merge(out)

    def s_rfor(self, s, st):
        out = []
        d = len(st.frames) - 1
        key = '$r%s' % s['v']['id']
        for x, c in self.eval(s['range'], st):
            if x.ctl:
                out.append(x)
                continue
            items = x.store.get((c, '#items'))
            v = s['v']
            if items is not None and len(items) <= 4:
                before = set(x.frames[d])
                cur = [x]
                for it in items[1:]:
                    n = []
                    for y in cur:
                        if y.ctl:
                            n.append(y)
                            continue
                        y = y.copy()
                        y.setl(d, v['id'], it)
                        self.bindvars(y, d, v, it)
                        for z in self.exec(s['b'], y):
                            if z.ctl == ('continue',):
                                z = z.copy()
                                z.ctl = None
                            n.append(self.leave(z, d, before, s))
                    cur = self.merge(n)
                for z in cur:
                    if z.ctl == ('break',):
                        z = z.copy()
                        z.ctl = None
                    out.append(z)
                continue
            x = x.copy()
            before = set(x.frames[d])
            x.setl(d, key, C(0))

            text = 'basic_string' in strip(s['range'].get('t', ''))[:24]
            if text:
                NNSET.add(('app', 'length', c))

            def condf(y):
                return self.compare(y, '<', y.frames[d][key], ('app', 'length', c) if text else self.csize(y, c))

            def body(y):
                y = y.copy()
                i = y.frames[d][key]
                self.emit(y, 'cont', 'deref', (c, i), s)
                el = self.celem(y, c, i)
                if v.get('ref') and self.kind(v['t']) in ('val', 'smart', 'func') and not v.get('binds'):
                    y.setl(d, v['id'], ('ref', ('E', c, i)))
                else:
                    y.setl(d, v['id'], el)
                self.bindvars(y, d, v, el)
                b2 = before | {key}
                return [self.leave(z, d, b2, s) for z in self.exec(s['b'], y)]

            def inc(y):
                y = y.copy()
                y.setl(d, key, add(y.frames[d][key], C(1)))
                return [y]
            for y in self.loop(x, condf, body, inc, s, [], range_of=c, rkey=('L', d, key)):
                out.append(self.leave(y, d, before, s))
        return self.merge(out)

    def bindvars(self, y, d, v, val):
        for i, b in enumerate(v.get('binds', [])):
            if val[0] == 'pair':
                y.setl(d, b['id'], val[1 + i])
            else:
                y.setl(d, b['id'], self.peek(y, val, 'first' if i == 0 else 'second'))

    def keys(self, st):
        out = {}
        for k, v in st.store.items():
            out[k] = v
        for d, fr in enumerate(st.frames):
            for k, v in fr.items():
                out[('L', d, k)] = v
        return out

    def setkey(self, st, k, v):
        if k[0] == 'L' and len(k) == 3 and isinstance(k[1], int):
            st.setl(k[1], k[2], v)
        elif v is None:
            s = dict(st.store)
            s.pop(k, None)
            st.store = s
        else:
            st.set(k, v)

    def entryval(self, st, k):
        if k[0] == 'L' and len(k) == 3 and isinstance(k[1], int):
            return st.frames[k[1]].get(k[2])
        v = st.store.get(k)
        if v is None and len(k) == 2:
            if k[1] == '#n':
                return self.csize(st, k[0])
            if isinstance(k[1], str) and not k[1].startswith('#'):
                return ('fld', k[0], k[1])
            if isinstance(k[1], str):
                return self.model_default(st, k)
        return v

    def model_default(self, st, k):
        for m in self.models:
            d = getattr(m, 'default', None)
            if d:
                v = d(k)
                if v is not None:
                    return v
        return None

    @staticmethod
    def delta(a, b):
        """constant b - a, or None"""
        if a is None or b is None:
            return None
        if a[0] == 'it' and b[0] == 'it':
            if a[1] != b[1] or a[2] != b[2]:
                return None
            d = sub(b[3], a[3])
        elif a[0] in ('it', 'ref', 'lock', 'lam', 'pair', 'items', 'ilist', 'str', 'opaque', 'valobj', 'range', 'sorted') or \
                b[0] in ('it', 'ref', 'lock', 'lam', 'pair', 'items', 'ilist', 'str', 'opaque', 'valobj', 'range', 'sorted'):
            return None
        else:
            d = sub(b, a)
        return d[1] if d[0] == 'c' else None

    @staticmethod
    def induct(old, v0, a, bs, k):
        """a term in the iteration count that a location holds at the start of every iteration"""
        if v0 is None or a is None or not bs or any(b != bs[0] for b in bs):
            return None
        b = bs[0]
        if b is None or any(x[0] in NOLIN for x in (v0, a, b)):
            return None
        if old is not None and old[0] == 't':
            return old if T.subst(old[1], k, add(k, C(1))) == b else None
        if old != 'h' or k not in idatoms(b):
            return None
        if a in idatoms(b):
            # w + g(k+1) - g(k)
            c, items = lin(sub(b, a))
            if c != 0 or not items:
                return None
            pos = mk(0, {x: n for x, n in items if n > 0})
            neg = mk(0, {x: -n for x, n in items if n < 0})
            if T.subst(neg, k, add(k, C(1))) != pos:
                return None
            t = add(v0, sub(neg, T.subst(neg, k, C(0))))
        else:
            t = T.subst(b, k, sub(k, C(1)))
        return ('t', t) if T.subst(t, k, C(0)) == v0 else None

    @staticmethod
    def guesses(v0, a, bs, k):
        if v0 is None or a is None or None in bs or any(x[0] in NOLIN for x in (v0, a, *bs)):
            return []
        ds = {sub(b, a) for b in bs}
        if len(ds) < 2 or any(d[0] != 'c' for d in ds):
            return []
        return [('t', add(v0, scale(k, d[1]))) for d in sorted(ds)]

    def cmp_candidates(self, conds):
        out = []

        def walk(e):
            if not isinstance(e, dict):
                return
            if e.get('k') == 'bin' and e['op'] in ('&&', '||'):
                walk(e['l'])
                walk(e['r'])
            elif e.get('k') == 'un' and e['op'] == '!':
                walk(e['e'])
            elif e.get('k') == 'bin' and e['op'] in self.NEG:
                out.append((e['op'], e['l'], e['r']))
            elif e.get('k') == 'call' and e.get('op') in self.NEG:
                es = ([e['obj']] if 'obj' in e else []) + e['args']
                if len(es) == 2:
                    out.append((e['op'], es[0], es[1]))
        for c in conds:
            walk(c)
        return out

    def pure_eval(self, e, st):
        self.quiet += 1
        try:
            r = self.eval(e, st)
        finally:
            self.quiet -= 1
        if len(r) == 1 and not r[0][0].ctl:
            v = r[0][1]
            return v[3] if v is not None and v[0] == 'it' else v
        return None

    def peeled(self, st, condf, bodyf, incf, s, conds, range_of):
        out, enter, ends = [], [], []
        for x, b in self.label(condf(st), s.get('ln', 0)):
            if x.ctl or not b:
                out.append(x)
            else:
                enter.append(x)
        for x in self.merge(enter):
            n0 = len(ends)
            for y in bodyf(x):
                if y.ctl in (('continue',), ('break',)):
                    brk = y.ctl == ('break',)
                    y = y.copy()
                    y.ctl = None
                    if brk:
                        self.labelb(y, s)
                    (out if brk else ends).append(y)
                elif y.ctl:
                    out.append(y)
                else:
                    ends.append(y)
            for y in ends[n0:]:
                self.headmeta = x.meta
                self.h.iter_end(self, y, C(0))
        ends = self.merge(ends)
        for y in ends:
            if self.h.step is not None:
                self.h.step(self, y)
        if incf:
            ends = self.merge([z for y in ends for z in incf(y)])
        for y in ends:
            out.extend(self.loop(y, condf, bodyf, incf, s, conds, range_of, peeled=True))
        return self.merge(out)

    def loop(self, st, condf, bodyf, incf, s, conds, range_of=None, rkey=None, peeled=False):
        if self.h.peel and not peeled and not self.quiet:
            return self.peeled(st, condf, bodyf, incf, s, conds, range_of)
        self.stats['loops'] += 1
        out = []
        can = False
        ln = s.get('ln', 0)
        for x, b in self.label(condf(st), ln):
            if x.ctl:
                out.append(x)
            elif not b:
                out.append(x)
            else:
                can = True
        if not can:
            return self.merge(out)
        cands = self.cmp_candidates(conds)
        # candidate bounds: (lhs expr, rhs expr) meaning lhs <= rhs
        inv = []
        for op, l, r in cands:
            a, b = self.pure_eval(l, st), self.pure_eval(r, st)
            if a is None or b is None or a[0] in NOLIN or b[0] in NOLIN:
                continue
            if op in ('<', '<=', '!=') and st.facts.holds(('le', a, b)):
                inv.append((l, r))
            if op in ('>', '>=', '!=') and st.facts.holds(('le', b, a)):
                inv.append((r, l))
        ksym = None
        ck = (tuple(self.path), ln)
        # key -> ('d', const) | ('t', term) | 'h'
        hv = {k: 'h' if v[0] in 'tf' else v for k, v in self.loopcache.get(ck, {}).items()}
        hidx, hbase = {}, {}
        noind, guess = set(), {}
        rel = {}

        def related(k, ends):
            """does k stay a member of the object another variable of the loop names?"""
            v0 = self.entryval(st, k)
            if k not in rel:
                rel[k] = []
                if len(k) == 3 and v0 is not None and v0[0] not in NOLIN and v0[0] != 'c':
                    for k2 in mod:
                        w0 = self.entryval(st, k2)
                        if k2 != k and len(k2) == 3 and w0 is not None and w0[0] in ('fld', 'sym', 'new', 'app'):
                            rel[k] += [(k2, q[2]) for q in subterms(st.facts.canon(v0)) if q[0] == 'fld' and q[1] == st.facts.canon(w0)]
                            rel[k] += [(k2, q[1]) for q, x in st.store.items() if len(q) == 2 and q[0] == w0 and x == v0]
            for k2, f in list(rel[k]):
                if all(self.entryval(y, k2) is not None and self.entryval(y, k) is not None and
                       y.facts.holds(('eq', self.entryval(y, k), self.peek(y, self.entryval(y, k2), f))) for y in [st] + ends):
                    return ('f', k2, f)
                rel[k].remove((k2, f))
            return None

        def mkhead(recorded):
            nonlocal ksym
            h = st.copy()
            if ksym is None:
                self.tick(h)
                ksym = ('sym', 'k@%d' % ln, h.n)
                NNSET.add(ksym)
            self.tick(h)
            base = hbase.setdefault(0, h.n)
            h.n = max(h.n, base)
            for k, how in sorted(hv.items(), key=lambda x: (x[1][0] == 'f', repr(x[0]))):
                j = hidx.setdefault(k, len(hidx))
                v0 = self.entryval(st, k)
                if how != 'h' and how[0] == 'f':
                    nv = self.peek(h, self.entryval(h, how[1]), how[2])
                elif how != 'h' and how[0] == 't':
                    nv = how[1]
                elif how != 'h' and v0 is not None:
                    if v0[0] == 'it':
                        nv = ('it', v0[1], v0[2], add(v0[3], scale(ksym, how[1])))
                    else:
                        nv = add(v0, scale(ksym, how[1]))
                elif len(k) == 2 and k[1] == '#items':
                    nv = None
                elif len(k) == 2 and isinstance(k[1], tuple):
                    nv = None
                else:
                    nm = k[2] if len(k) == 3 else k[1] if len(k) == 2 else k[0]
                    nv = ('sym', 'w@%d:%s' % (ln, nm), base * 1000 + j)
                    if v0 is not None and v0[0] == 'it':
                        nv = ('it', v0[1], v0[2], nv)
                    elif v0 is not None and v0[0] in ('lock', 'mlock', 'ref'):
                        nv = v0
                self.setkey(h, k, nv)
            for l, r in inv:
                a, b = self.pure_eval(l, h), self.pure_eval(r, h)
                if a is not None and b is not None:
                    f = h.facts.add_le(a, b)
                    if f is not None:
                        h.facts = f
            return h

        def iterate(h):
            ends, exits = [], []
            enter = []
            for x, b in condf(h):
                if x.ctl:
                    exits.append(x)
                elif b:
                    enter.append(x)
            for x in self.merge(enter):
                for y in bodyf(x):
                    if y.ctl == ('continue',):
                        y = y.copy()
                        y.ctl = None
                    if y.ctl == ('break',):
                        y = y.copy()
                        y.ctl = None
                        self.labelb(y, s)
                        exits.append(y)
                    elif y.ctl:
                        exits.append(y)
                    else:
                        ends.append(y)
            ends = self.merge(ends)
            if self.h.step is not None:
                for y in ends:
                    self.h.step(self, y)
            if incf:
                n = []
                for y in ends:
                    n.extend(incf(y))
                ends = self.merge(n)
            return ends, exits

        self.quiet += 1
        try:
            for rnd in range(8):
                h = mkhead(False)
                ends, _ = iterate(h)
                # only what comes round again counts
                ends = [y for y in ends if any(b or z.ctl for z, b in condf(y.copy()))]
                changed = False
                # invariants
                bad = []
                for l, r in inv:
                    for y in ends:
                        a, b = self.pure_eval(l, y), self.pure_eval(r, y)
                        if a is None or b is None or not y.facts.holds(('le', a, b)):
                            bad.append((l, r))
                            break
                if bad:
                    inv = [x for x in inv if x not in bad]
                    changed = True
                hk = self.keys(h)
                nids = {}
                mod = {}
                for y in ends:
                    yk = self.keys(y)
                    for k in set(hk) | set(yk):
                        if len(k) == 3 and k[0] == 'L' and (k[1] >= len(st.frames) or k[2] not in st.frames[k[1]]):
                            continue
                        a, b = hk.get(k), yk.get(k)
                        if a != b:
                            if k not in hk and isinstance(k[0], tuple) and idset(k[0]):
                                if y not in nids:
                                    nids[y] = self.newids(y, h.cnt)
                                if idset(k[0]) & nids[y]:
                                    continue
                            mod.setdefault(k, [])
                for k in mod:
                    for y in ends:
                        a, b = self.entryval(h, k), self.entryval(y, k)
                        mod[k].append(self.delta(a, b))
                for k, ds in mod.items():
                    d = ds[0] if ds and all(x == ds[0] for x in ds) else None
                    how = ('d', d) if d is not None and d != 0 else 'h'
                    if len(k) == 2 and k[1] in ('#v',):
                        how = 'h'
                    if how == 'h' and hv.get(k, 'h')[0] in 'hf':
                        t = related(k, ends)
                        if t is not None:
                            if hv.get(k) != t:
                                hv[k] = t
                                changed = True
                            continue
                        if hv.get(k, 'h') != 'h':
                            hv[k] = 'h'
                            changed = True
                            continue
                    if self.h.induct and k not in noind:
                        t = self.induct(hv.get(k), self.entryval(st, k), self.entryval(h, k), [self.entryval(y, k) for y in ends], ksym)
                        if t is None:
                            # it grows in some rounds: in none or in every one of them?
                            if k not in guess and hv.get(k) == 'h':
                                guess[k] = self.guesses(self.entryval(st, k), self.entryval(h, k), [self.entryval(y, k) for y in ends], ksym)
                            if guess.get(k):
                                t = guess[k].pop(0)
                        if t is not None:
                            if hv.get(k) != t:
                                hv[k] = t
                                changed = True
                            continue
                        if hv.get(k) is not None and hv[k][0] == 't':
                            noind.add(k)
                    if hv.get(k) != how:
                        if hv.get(k) == 'h':
                            continue
                        if k in hv and how != 'h':
                            how = 'h'
                        hv[k] = how
                        changed = True
                for k in list(hv) if ends else ():
                    if k not in mod and hv[k] != 'h' and not (hv[k][0] == 't' and hv[k][1] == self.entryval(st, k)):
                        hv[k] = 'h'
                        changed = True
                if not changed:
                    break
            else:
                inv = []
                for k in hv:
                    hv[k] = 'h'
        finally:
            self.quiet -= 1
        self.loopcache[ck] = hv
        h = mkhead(True)
        rng = range_of
        res = []
        allpts = None
        done = []
        brk = []
        # every typestate an iteration can start in
        todo = [(h.meta, h.trace)]
        seen = {h.meta}
        while todo:
            m, tr = todo.pop()
            hh = h.copy()
            hh.meta = m
            hh.trace = tr
            pre = tr
            self.h.iteration(self, hh)
            if self.h.loop_in is not None and not self.quiet:
                self.h.loop_in(self, hh, ksym)
            self.emit_loop(hh, 'begin', (rng if rng is not None else C(0), ksym), s)
            mark = hh.trace
            ends, exits = iterate(hh)
            pts = None
            for y in ends:
                self.headmeta = m
                self.h.iter_end(self, y, ksym)
                q = {e for e in y.cov if e[0] == 'pt' and ksym in idatoms(e[3])}
                pts = q if pts is None else pts & q
            pts = pts or set()
            allpts = pts if allpts is None else allpts & pts
            for y in ends:
                if y.trace is not mark and mark is not pre:
                    y = y.copy()
                    self.emit_loop(y, 'end', (rng if rng is not None else C(0), ksym), s)
                elif y.trace is mark:
                    y = y.copy()
                    y.trace = pre
                if y.meta not in seen:
                    seen.add(y.meta)
                    todo.append((y.meta, y.trace))
                stuck = True
                for z, b in self.label(condf(y), ln):
                    if z.ctl:
                        out.append(z)
                    elif not b:
                        stuck = False
                        done.append(z)
                if stuck:
                    y = y.copy()
                    y.ctl = ('diverge',)
                    res.append(y)
            for y in exits:
                if y.trace is mark and mark is not pre:
                    y = y.copy()
                    y.trace = pre
                (res if y.ctl else brk).append(y)
        if not self.quiet:
            pts = allpts or set()
            bounds = [x for _, l, r in cands for x in (l, r)]
            out = [z if z.ctl else self.sumcov(z, pts, ksym, C(0), bounds) for z in out]
            done = [self.sumcov(z, pts, ksym, add(ksym, C(1)), bounds) for z in done]
            brk = [self.sumcov(z, pts, ksym, ksym, bounds) for z in brk]
        out.extend(res)
        out.extend(done)
        out.extend(brk)
        return self.merge(out)

    def labelb(self, y, s):
        if self.h.split_exits and not self.quiet:
            y.lab = y.lab + ((s.get('ln', 0), 'b'),)

    def label(self, rs, ln):
        if not self.h.split_exits or self.quiet or sum(1 for x, b in rs if not b and not x.ctl) < 2:
            return rs
        out = []
        i = 0
        for x, b in rs:
            if not b and not x.ctl:
                x = x.copy()
                i += 1
                x.lab = x.lab + ((ln, i),)
            out.append((x, b))
        return out

    def emit_loop(self, st, what, args, s):
        if self.quiet:
            return
        site = self.site(s)
        key = (id(st.trace) if st.trace else 0, 'loop', what, site, args[0])
        n = self.nodes.get(key)
        if n is None:
            ev = Ev('loop', what, args, site, st.copy(), ())
            n = Node(st.trace, ev)
            self.nodes[key] = n
        st.trace = n

    # ------------------------------------------------------- entry points
    def run(self, f, this, vals, st=None, extra=None):
        """run function f as an entry; returns final states"""
        st = st.copy() if st is not None else State()
        r = self.inline(f, this, vals, st, {'ln': f['ln']}, extra=extra)
        out = []
        for s, v in r:
            s = s.copy()
            if s.ctl is None:
                s.ctl = ('done', v)
            out.append(s)
        self.stats['paths'] += len(out)
        return out

    def run_ctor_entry(self, f, this, vals, st):
        out = []
        for s in self.run_ctor(f, this, vals, st.copy(), {'ln': f['ln']}):
            s = s.copy()
            if s.ctl is None:
                s.ctl = ('done', C(0))
            out.append(s)
        self.stats['paths'] += len(out)
        return out

    def getter(self, st, obj, cls, name):
        """value(s) of a const accessor in a state, as a set of terms"""
        f = self.p.method(cls, name)
        self.quiet += 1
        try:
            r = self.inline(f, obj, (), st, {'ln': 0})
        finally:
            self.quiet -= 1
        return [v for s, v in r if not s.ctl]


def base(o):
    """the object an object term is a part of"""
    while o and o[0] in ('sub', 'fld'):
        o = o[1]
    return o


def root(o):
    while o and o[0] in ('sub',):
        o = o[1]
    return o if o and o[0] == 'new' else None


_subc = {}


def subterms(t):
    r = _subc.get(t)
    if r is None:
        out = {t}
        for x in t:
            if isinstance(x, tuple) and x:
                out |= subterms(x)
        r = _subc[t] = frozenset(out)
    return r


_idc = {}


def idatoms(t):
    return set(subterms(t))


def idset(t):
    r = _idc.get(t)
    if r is None:
        out = set()
        if t and t[0] in ('new', 'sym', 'ver') and isinstance(t[-1], int):
            out.add(t[-1])
        for x in t:
            if isinstance(x, tuple) and x:
                out |= idset(x)
        r = _idc[t] = frozenset(out)
    return r


NOLIN = {'it', 'ref', 'lock', 'lam', 'pair', 'items', 'ilist', 'opaque', 'valobj', 'range', 'sorted'}
PURE = {'std::chrono::duration_cast', 'std::get', 'std::tie', 'std::to_string', 'std::chrono::operator-',
        'std::chrono::operator+', 'std::numeric_limits<int>::max', 'std::operator|', 'std::abs', 'std::operator+'}
NOTHROW = {'std::thread::hardware_concurrency', 'std::this_thread::get_id', 'std::chrono::system_clock::now'}


def short(q):
    return q.replace('cornerstone::', '')
