"""C18: what is encoded is decoded unchanged.

The layout an encoder writes and the layout a decoder reads are derived from every abstract path as sequences of
typed items, each tied to the field it is taken from or ends up in; loops become repetitions.  The two are compared."""
from ..rule import *
from ..raft import Entry
from ..bufmodel import buf_model, bsize, bpos, BUF, WIDTH, new_buf
from ..engine import strip
from ..models import CODEC
from . import rpc
from .rpc import SES, CLI, RQ, WD

IDX = ('sym', 'idx')
# fields that live in memory only
VOLATILE = {('log_entry', 'cookie_')}


def codec_model(eng, what, e, st, obj, args, **kw):
    if what != 'call':
        return None
    cls, name = e.get('cls', ''), e['name']
    if cls in CODEC and name == 'serialize':
        n = nn(('app', 'encsize', obj))
        b = new_buf(eng, st, n)
        st.set((b, '#enc'), ('enc', cls, obj))
        return [(st, b)]
    if cls in CODEC and name == 'deserialize':
        buf = eng.val(st, args[0])
        eng.tick(st)
        v = ('new', cls, st.n)
        eng.emit(st, 'buf', 'get:obj:' + cls, (buf, v, bpos(st, buf)), e)
        p = nn(('app', 'after', buf, v))
        f = st.facts.add_le(bpos(st, buf), p)
        f = f and f.add_le(p, bsize(st, buf))
        st.facts = f or st.facts
        st.set((buf, '#pos'), p)
        return [(st, v)]
    return None


def norm(t):
    """versions of containers do not matter"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'lin':
        out = ('c', t[1])
        for x, n in t[2]:
            out = add(out, norm(x), n)
        return out
    if t[:2] == ('app', 'elem'):
        return ('app', 'elem', norm(t[2]), C(0), norm(t[4]))
    if t[:2] == ('app', 'size'):
        return ('app', 'size', norm(t[2]), C(0))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def loops_to_idx(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'sym' and isinstance(t[1], str) and t[1].startswith('k@'):
        return IDX
    if t[0] == 'lin':
        out = ('c', t[1])
        for x, n in t[2]:
            out = add(out, loops_to_idx(x), n)
        return out
    return tuple(loops_to_idx(x) if isinstance(x, tuple) else x for x in t)


class Tape(Rule):
    """records what is put into and got from buffers, in order"""
    name = 'tape'
    plain = True
    maythrow = False
    models = (codec_model, buf_model, raft_model)
    meta0 = ()

    def __init__(self, prog, sink=None):
        Rule.__init__(self, prog)
        self.sink = sink
        self.inc = {}
        self.narrowed = []

    def boundary(self, eng, callee):
        return callee.get('cls') == BUF or callee.get('cls') in CODEC and callee['name'] in ('serialize', 'deserialize') or \
            callee['name'] == 'process_req'

    def split(self, eng, st):
        return st.meta, tuple(st.facts.decide_eq(i[3], C(1)) for i in st.meta if i[0] == 'g' and i[2] == 'byte')

    # ---- loops
    def loop_in(self, eng, st, k):
        st.meta = st.meta + (('[', k),)

    def iter_end(self, eng, st, k):
        m = st.meta
        at = [i for i, x in enumerate(m) if x == ('[', k)]
        if not at:
            return
        base, inner = m[:at[-1]], m[at[-1] + 1:]
        for fr in st.frames:
            for vid, v in fr.items():
                if isinstance(v, tuple) and v and v[0] in ('lin', 'sym'):
                    for a, n in lin(v)[1]:
                        if n == 1 and a[0] == 'sym' and isinstance(a[1], str) and a[1].startswith('w@') and a[1].endswith(':' + str(vid)):
                            self.inc[a] = sub(v, a)
        for key, v in st.store.items():
            if len(key) == 2 and key[1] == '#pos':
                for a, n in lin(v)[1]:
                    if n == 1 and a[0] == 'sym' and isinstance(a[1], str) and a[1].startswith('w@'):
                        self.inc.setdefault(a, sub(v, a))
        local = {x[1] for x in inner if x[0] == 'alloc'}
        inner = tuple(x for x in inner if not (x[0] in ('alloc', 'p', 'g') and x[1] in local))
        inner = subst(inner, k, IDX)
        if not inner:
            st.meta = base
        elif base and base[-1] == ('*', inner):
            st.meta = base
        else:
            st.meta = base + (('*', inner),)

    # ---- events
    def flat(self, m, b, what):
        out = []
        for x in m:
            if x[0] == what and x[1] == b:
                out.append(x)
            elif x[0] == '*':
                y = self.flat(x[1], b, what)
                if y:
                    out.append(('*', tuple(y)))
        return out

    def pushes(self, m, c):
        for x in m:
            if x[0] == 'push' and x[1] == c:
                yield x
            elif x[0] == '*':
                yield from self.pushes(x[1], c)

    def resolve(self, eng, st, s):
        """items that stand for the bytes of buffer s from its position on"""
        enc = st.store.get((s, '#enc'))
        if enc is not None:
            return [('p', None, 'obj:' + enc[1], enc[2], bsize(st, s))]
        own = self.flat(st.meta, s, 'p')
        if own:
            return own
        if s[:2] == ('app', 'elem'):
            ps = list(self.pushes(st.meta, s[2]))
            if ps and all(p[3] == ps[0][3] for p in ps):
                return [subst(x, IDX, s[4]) for x in ps[0][3]]
        return [('p', None, 'raw', s, sub(bsize(st, s), bpos(st, s)), bpos(st, s))]

    def event(self, eng, st, ev):
        if st.ctl:
            return
        if ev.kind == 'buf':
            op, _, kind = ev.name.partition(':')
            a = ev.args
            if op == 'alloc':
                if any(x[0] == '[' for x in st.meta):
                    st.meta = st.meta + (('alloc', a[0]),)
            elif op == 'put':
                its = self.resolve(eng, st, a[1]) if kind == 'buf' else [('p', None, kind, a[1], a[3])]
                st.meta = st.meta + tuple(self.into(x, a[0]) for x in its)
            elif op == 'get':
                st.meta = st.meta + (('g', a[0], 'raw' if kind == 'buf' else kind, a[1]),)
            elif op == 'rest':
                st.meta = st.meta + (('g', a[0], 'raw', a[1]),)
            elif op == 'seek' and a[1] == C(0):
                st.meta = tuple(x for x in st.meta if not (x[0] == 'g' and x[1] == a[0]))
        elif ev.kind == 'cont' and ev.name == 'push' and len(ev.args) > 2:
            c, v, at = ev.args[:3]
            if v is None:
                return
            if v[0] == 'new' and v[1] == BUF or (v, '#enc') in st.store:
                its = tuple(subst(x, at, IDX) if at[0] != 'c' else x for x in self.resolve(eng, st, v))
                st.meta = st.meta + (('push', c, at, its),)
            else:
                el = ('app', 'elem', c, C(0), at)
                st.meta = self.label(eng, st, st.meta, self.fields(eng, st, v, el, {v: el}))
        elif ev.kind == 'ext' and ev.name.split('::')[-1] in ('memcpy', 'memmove') and len(ev.args) == 3:
            d, s, n = ev.args
            if d[:2] == ('app', 'data') and s[:2] == ('app', 'data') and d[3] == C(0) and \
                    st.facts.decide_eq(s[3], bpos(st, s[2])) is True and st.facts.decide_eq(n, bsize(st, d[2])) is True:
                if st.facts.decide_eq(n, sub(bsize(st, s[2]), bpos(st, s[2]))) is True:
                    st.meta = st.meta + (('g', s[2], 'raw', d[2]),)
        if self.sink is not None:
            self.sink(self, eng, st, ev)

    def into(self, x, b):
        if x[0] == '*':
            return ('*', tuple(self.into(y, b) for y in x[1]))
        return (x[0], b) + x[2:]

    def narrow(self, eng, st, v, e):
        w = eng.typesize(e['t'])
        if v[0] == 'app' and v[1] in ('get.ulong', 'get.int') and w < WIDTH[v[1][4:]] or \
                v[0] == 'fld' and eng.typesize(e.get('from', '')) in (4, 8) and strip(e.get('from', '')) in ('unsigned long', 'int', 'unsigned int') and w in (1, 2, 4):
            self.narrowed.append((eng.site(e), show(v)))

    # ---- the object a decoder builds
    def fields(self, eng, st, obj, path, out, depth=0):
        """{value: path} of the fields of an object"""
        cls = self.clsof(obj)
        for c, f in classfields(self.p, cls):
            v = eng.peek(st, obj, f['n'], f['t'])
            if v is None or (obj, f['n']) not in st.store and v[0] != 'sub':
                continue
            here = ('fld', path, f['n'])
            if v[0] == 'sub':
                here = ('sub', path, f['n'])
                out.setdefault(v, here)
                continue
            if v[0] == 'c':
                out.setdefault(('#const', here), v)
                continue
            out.setdefault(v, here)
            if v[0] == 'new' and v[1] == BUF:
                n = st.store.get((v, '#size'))
                if n is not None:
                    out.setdefault(n, ('app', 'bufsize', here))
                    out[('#buf', here)] = v
            elif v[0] == 'new' and depth < 4:
                self.fields(eng, st, v, here, out, depth + 1)
        return out

    def clsof(self, o):
        return o[1] if o[0] == 'new' else None

    def label(self, eng, st, m, names):
        out = []
        for x in m:
            if x[0] == '*':
                x = ('*', self.label(eng, st, x[1], names))
            elif x[0] == 'g':
                v = names.get(x[3])
                if v is not None:
                    x = x[:3] + (v,) + x[4:]
            out.append(x)
        return tuple(out)


def classfields(prog, cls):
    c = prog.classes.get(cls)
    if c is None:
        return
    for b in c.get('bases', []):
        yield from classfields(prog, b)
    for f in c['fields']:
        yield cls, f


class Layout:
    """a variant of a layout: what one path writes or reads"""

    def __init__(self, items, consts=None, facts=None, site=None, empty=False, start=None):
        self.items, self.consts, self.facts, self.site, self.empty, self.start = items, consts or {}, facts, site, empty, start


def path(t, root):
    t = norm(t)
    if t == root:
        return ()
    if t[0] in ('fld', 'sub'):
        p = path(t[1], root)
        return None if p is None else p + (t[2],)
    if t[:2] == ('app', 'elem'):
        p = path(t[2], root)
        return None if p is None else p + ('[%s]' % show(t[4]),)
    if t[:2] == ('app', 'size'):
        p = path(t[2], root)
        return None if p is None else p + ('#count',)
    if t[:2] == ('app', 'bufsize'):
        p = path(t[2], root)
        return None if p is None else p + ('#size',)
    return None


def width(items, stars=False):
    """(bytes outside repetitions, bytes of one repetition or None)"""
    w, s = C(0), None
    for x in items:
        if x[0] == '*':
            v, _ = width(x[1])
            s = v if s is None else add(s, v)
        else:
            w = add(w, x[4])
    return w, s


class Compare(Rule):
    tree = True
    needs_raft = False
    must_see = ('item',)

    def __init__(self, prog):
        Rule.__init__(self, prog)
        self.fns_seen, self.sites_seen = set(), set()
        self.stats = {}

    def tape(self, en, sink=None, base=Tape):
        t = base(self.p, sink)
        eng, res = run_rule(self.p, t, en)
        self.fns_seen |= set(eng.fns_seen)
        self.sites_seen |= set(eng.sites)
        for k, v in eng.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.stats['paths'] = self.stats.get('paths', 0) + len(res)
        return t, eng, res

    # ---- encoders
    def encoded(self, t, eng, st, b, root, site, fn):
        """the layout in buffer b, with the checks that concern the encoder alone"""
        items = t.flat(st.meta, b, 'p')
        self.ob('encoder', site)
        w, s = width(items)
        size = bsize(st, b)
        if s is None:
            if st.facts.decide_eq(size, w) is not True:
                self.bad(fn + '/space', site, '%s bytes are allocated, but %s are written' % (show(size), show(w)), st)
        else:
            self.sums(t, st, size, s, site, fn, 'allocated')
        if st.facts.decide_eq(bpos(st, b), C(0)) is not True:
            self.bad(fn + '/start', site, 'the encoding is handed out with its position past the start', st)
        bools = self.bools(eng, st, root)
        return Layout(self.canon(items, root), bools, st.facts, site), items

    def sums(self, t, st, size, s, site, fn, what):
        """the size is accumulated over the same repetitions as the bytes written"""
        acc = [a for a, n in lin(size)[1] if a in t.inc]
        if len(acc) != 1:
            return      # computed another way: whether it is enough is decided by the bounds check of every put
        d = self.sizes(t, st, t.inc[acc[0]])
        if norm(loops_to_idx(d)) != norm(loops_to_idx(s)):
            self.bad(fn + '/space', site, '%s bytes are %s per element, but %s are written' % (show(d), what, show(s)), st)
        elif sub(sub(size, acc[0]), t.inc[acc[0]])[0] != 'c':
            self.bad(fn + '/space', site, 'the size %s is not the sum of what is written' % what, st)

    def sizes(self, t, st, d):
        """with the sizes of buffers kept in containers put in terms of what was written to them"""
        c, items = lin(d)
        out = C(c)
        for a, n in items:
            v = a
            if a[:2] == ('app', 'bufsize') and a[2][:2] == ('app', 'elem'):
                ps = list(t.pushes(st.meta, a[2][2]))
                if ps and all(p[3] == ps[0][3] and not any(x[0] == '*' for x in p[3]) for p in ps):
                    v = subst(width(ps[0][3])[0], IDX, a[2][4])
            out = add(out, v, n)
        return out

    def bools(self, eng, st, root):
        out = {}
        cls = self.rootcls
        for c, f in classfields(self.p, cls):
            if strip(f['t']) == 'bool':
                d = st.facts.decide_eq(eng.peek(st, root, f['n'], f['t']), C(0))
                if d is not None:
                    out[(f['n'],)] = 0 if d else 1
        return out

    def canon(self, items, root):
        out = []
        for x in items:
            if x[0] == '*':
                out.append(('*', tuple(self.canon(x[1], root))))
                continue
            v = x[3]
            out.append((x[2], path(v, root), norm(v), x[5] if len(x) > 5 else None))
        return out

    # ---- decoders
    def decoded(self, t, eng, st, bufs, obj, site):
        names = t.fields(eng, st, obj, obj, {obj: obj})
        m = t.label(eng, st, st.meta, names)
        items = [y for b in bufs for y in t.flat(m, b, 'g')]
        counts = [(v, names[v]) for v in names if v[0] == 'sub']
        items = [self.count(eng, st, x, counts) for x in items]
        consts = {}
        for k, v in names.items():
            if k[0] == '#const':
                p = path(k[1], obj)
                if p is not None:
                    consts[p] = v[1]
        empty = None
        last = bufs[-1]
        if st.facts.decide_le(bsize(st, last), bpos(st, last)) is True:
            for k, v in names.items():
                if k[0] == '#buf' and st.facts.decide_eq(st.store.get((v, '#size'), C(1)), C(0)) is True:
                    empty = path(k[1], obj)
        self.ob('decoder', site)
        return Layout(self.canon(items, obj), consts, st.facts, site, empty)

    def count(self, eng, st, x, counts):
        if x[0] != 'g' or x[2] != 'int':
            return x
        for c, p in counts:
            n = eng.csize(st, c)
            if st.facts.decide_eq(n, x[3]) is True or st.facts.decide_eq(n, C(0)) is True and st.facts.decide_le(x[3], C(0)) is True:
                if n[0] != 'c' or st.facts.decide_le(x[3], n) is True:
                    return x[:3] + (('app', 'size', p, C(0)),)
        return x

    # ---- comparison
    def match(self, name, E, D):
        """reports where a decoder variant does not read what an encoder variant writes"""
        if not self.compatible(E, D):
            return
        e, d = list(E.items), list(D.items)
        if self.shape(e) != self.shape(d) and (self.objs(e) or self.objs(d)):
            e, d = self.expand(e, self.encs), self.expand(d, self.decs)
        self.align(name, E, D, e, d)

    encs = decs = {}

    def objs(self, its):
        return any(self.objs(x[1]) if x[0] == '*' else x[0].startswith('obj:') for x in its)

    def shape(self, its):
        return tuple(x[0] for x in its if x[0] != '*')

    def expand(self, its, table):
        """nested objects written out"""
        out = []
        for x in its:
            if x[0] == '*':
                out.append(('*', tuple(self.expand(x[1], table))))
            elif x[0].startswith('obj:') and table.get(x[0][4:]):
                best = max(table[x[0][4:]], key=lambda l: len(l.items))
                out.extend(self.expand(self.under(best.items, x[1]), table))
            else:
                out.append(x)
        return out

    def under(self, its, p):
        return [('*', tuple(self.under(x[1], p))) if x[0] == '*' else
                (x[0], p + x[1] if p is not None and x[1] is not None else None) + tuple(x[2:]) for x in its]

    def stars(self, name, es, ds, site):
        n = [max(sum(1 for x in l.items if x[0] == '*') for l in ls) for ls in (es, ds)]
        if n[0] != n[1]:
            self.bad(name + '/repeat', site, 'the encoder has %d repeated parts and the decoder %d' % tuple(n), None)

    def compatible(self, E, D):
        es = [x for x in E.items if x[0] != '*']
        ds = [x for x in D.items if x[0] != '*']
        for x, y in zip(es, ds):
            if x[0] == y[0] and x[1] is None and x[2][0] == 'c' and y[1] is None and D.facts.decide_eq(y[2], x[2]) is False:
                return False
        return True

    def align(self, name, E, D, e, d):
        i = j = 0
        while i < len(e) or j < len(d):
            x = e[i] if i < len(e) else None
            y = d[j] if j < len(d) else None
            if x is not None and x[0] == '*' and (y is None or y[0] != '*'):
                i += 1
                continue
            if y is not None and y[0] == '*' and (x is None or x[0] != '*'):
                j += 1
                continue
            if x is not None and x[0] == '*':
                self.align(name + '[]', E, D, list(x[1]), list(y[1]))
                i += 1
                j += 1
                continue
            self.ob('item', D.site)
            if x is None or y is None:
                if y is None and x[0] == 'raw' and D.empty is not None and D.empty == x[1]:
                    i += 1
                    continue
                self.bad(name + '/extra', D.site, 'the decoder %s %s' % (
                    ('does not read', self.say(x)) if y is None else ('reads more than the encoder writes:', self.say(y))), None)
                return
            if x[0] != y[0]:
                self.bad(name + '/kind', D.site, 'the decoder reads %s where the encoder writes %s' % (self.say(y), self.say(x)), None)
                return
            why = self.differ(E, D, x, y)
            if why:
                self.bad(name + '/field', D.site, why, None)
            i += 1
            j += 1

    def say(self, x):
        k = x[0].split('::')[-1]
        return 'a %s (%s)' % (k, '.'.join(x[1]) if x[1] is not None else show(x[2]))

    def differ(self, E, D, x, y):
        if x[1] is not None and x[1] == y[1]:
            return None
        if x[1] is not None and y[1] is None:
            w = D.consts.get(x[1])
            if w is not None and (D.facts.decide_eq(y[2], C(w)) is True or w == 0 and D.facts.decide_eq(y[2], C(1)) is False):
                return None
            return '%s is written, but what is read there does not become %s' % (self.say(x), '.'.join(x[1]))
        if x[1] is None and x[2][0] == 'c':
            if y[1] is not None:
                return None if E.consts.get(y[1]) == x[2][1] else 'a constant is written where %s is read' % self.say(y)
            common = [p for p in E.consts if p in D.consts]
            if not common or any(E.consts[p] != D.consts[p] for p in common):
                return 'the value %s written for %s is read as %s' % (show(x[2]), E.consts, {'.'.join(k): v for k, v in D.consts.items()})
            return None
        if x[1] is None and y[1] is None and self.same_other(E, D, x, y):
            return None
        return '%s is written where %s is read' % (self.say(x), self.say(y))

    def same_other(self, E, D, x, y):
        return False

    # ---- the fields of a class
    def all_fields(self, name, cls, variants, site):
        seen = set()

        def walk(its):
            for x in its:
                if x[0] == '*':
                    walk(x[1])
                elif x[1] is not None and x[1]:
                    seen.add((x[1][0], x[0] if len(x[1]) == 1 else None))
        for v in variants:
            walk(v.items)
            for p in v.consts:
                seen.add((p[0], 'byte'))
        for c, f in classfields(self.p, cls):
            if (short(cls), f['n']) in VOLATILE:
                continue
            self.ob('field', site)
            ks = {k for n, k in seen if n == f['n']}
            if not ks:
                self.bad(name + '/lost:' + f['n'], site, 'the field %s is not encoded' % f['n'], None)
            t = strip(f['t'])
            need = {'unsigned long': 8, 'int': 4, 'unsigned int': 4}.get(t, 0)
            for k in ks:
                if k in WIDTH and WIDTH[k] < need:
                    self.bad(name + '/width:' + f['n'], site, 'the field %s is encoded in %d bytes' % (f['n'], WIDTH[k]), None)

    def run(self):
        raise NotImplementedError


class Classes(Compare):
    name = 'class-codecs'
    doc = 'every class with serialize and deserialize: the items written and read have the same kinds in the same order and stand for the same fields, every field is ' \
          'included in full width, counts are those of the container, the buffer is as large as what is written and is handed out from its start'
    must_see = ('item', 'encoder', 'decoder', 'field')

    def run(self):
        encs, decs = {}, {}
        for cls in sorted(CODEC):
            if not self.p.find(cls + '::serialize') or not self.p.find(cls + '::deserialize'):
                raise AnalysisBroken('no serialize or deserialize in ' + cls)
        for cls in sorted(CODEC):
            self.rootcls = cls
            n = short(cls)
            f = self.p.method(cls, 'serialize')
            self.en = Entry(n, f, THIS, (), kind=('codec', cls))
            t, eng, res = self.tape(self.en)
            es = []
            for st in res:
                if st.ctl and st.ctl[0] == 'done' and st.ctl[1] is not None:
                    l, items = self.encoded(t, eng, st, st.ctl[1], THIS, self.loc(f), 'serialize')
                    es.append(l)
                    self.raws(cls, l)
            for site, v in set(t.narrowed):
                self.bad('narrow', site, 'the value %s is cut before it is written' % v, None)
            g = self.p.method(cls, 'deserialize')
            B = ('sym', 'buf')
            t, eng, res = self.tape(Entry(n, g, THIS, (B,), kind=('codec', cls)))
            ds = []
            for st in res:
                if st.ctl and st.ctl[0] == 'done' and st.ctl[1] is not None:
                    ds.append(self.decoded(t, eng, st, [B], st.ctl[1], self.loc(g)))
            for site, v in set(t.narrowed):
                self.bad('narrow', site, 'the value %s is cut after it is read' % v, None)
            if not es or not ds:
                raise AnalysisBroken('%s: the encoder or the decoder has no normal end' % cls)
            encs[cls], decs[cls] = es, ds
        for cls in sorted(CODEC):
            self.en = Entry(short(cls), self.p.method(cls, 'deserialize'), THIS, (), kind=('codec', cls))
            self.encs, self.decs = encs, decs
            for E in encs[cls]:
                for D in decs[cls]:
                    self.match(short(cls), E, D)
            self.stars(short(cls), encs[cls], decs[cls], self.endsite())
            self.all_fields(short(cls), cls, encs[cls], encs[cls][0].site)
        # the log store takes the first bytes of an entry for its term
        first = [E.items[0] if E.items else None for E in encs[NS + 'log_entry']]
        self.en = Entry('log_entry', self.p.method(NS + 'log_entry', 'serialize'), THIS, (), kind=('codec', ''))
        if any(x is None or x[0] != 'ulong' or x[1] != ('term_',) for x in first):
            self.bad('term-first', encs[NS + 'log_entry'][0].site, 'an encoded entry does not start with its term, which the log store reads from there', None)
        return self.stats

    def raws(self, cls, l):
        for x in l.items:
            if x[0] == 'raw' and cls == NS + 'log_entry' and x[3] is not None and x[3] != C(0):
                self.bad('whole', l.site, 'the content of the entry is not encoded from its start', None)


def sent(ev):
    """(buffer, position, length) an asynchronous write is given"""
    if ev.kind == 'ext' and ev.name.rsplit('::', 1)[-1] in ('async_write', 'async_write_some', 'async_send', 'write'):
        for a in ev.args:
            if a is not None and a[:2] == ('app', 'asiobuf') and len(a) > 3 and a[2][:2] == ('app', 'data'):
                return a[2][2], a[2][3], a[3]
    return None


class NetTape(Tape, rpc.Chase):
    """the same for the handlers of the RPC layer"""

    def boundary(self, eng, callee):
        return Tape.boundary(self, eng, callee) or rpc.Chase.boundary(self, eng, callee)

    def split(self, eng, st):
        return Tape.split(self, eng, st), rpc.failed(st, self.en)


class Frames(Compare):
    must_see = ('item', 'encoder', 'decoder', 'field')

    def writer(self, ens, cls, fn):
        """layouts of the frames the entries write, taken from a message of class cls"""
        out = []
        self.rootcls = cls

        def sink(t, eng, st, ev):
            w = sent(ev)
            if w is None:
                return
            b, p, n = w
            its = t.flat(st.meta, b, 'p')
            if not its:
                return
            roots = {x[3][1] for x in its if x[0] == 'p' and x[3][0] == 'fld'}
            root = None
            for r in roots:
                if all(f['n'] for _, f in classfields(self.p, cls)) and any(x[3] == ('fld', r, f['n']) for x in its if x[0] == 'p' for _, f in classfields(self.p, cls)):
                    root = r
            if root is None:
                self.bad(fn + '/frame', ev.site, 'a frame is sent that is not made from a message', st)
                return
            l, items = self.encoded(t, eng, st, b, norm(root), ev.site, fn)
            if p != C(0) or st.facts.decide_eq(n, bsize(st, b)) is not True:
                self.bad(fn + '/partial', ev.site, 'only a part of the frame is sent', st)
            l.total = width(items)[0]
            l.raw = items
            l.tape, l.st = t, st
            out.append(l)
        for en in ens:
            self.en = en
            t, eng, res = self.tape(en, sink, NetTape)
            for site, v in set(t.narrowed):
                self.bad('narrow', site, 'the value %s is cut before it is written' % v, None)
        if not out:
            raise AnalysisBroken('no frame made from a %s is sent' % short(cls))
        return out


class Request(Frames):
    name = 'request-frame'
    doc = 'the request frame the client writes is what the session reads: header fields, the length of the log data at the place where the session looks for it, ' \
          'and for every entry its term, type, size and content'

    def run(self):
        cls = NS + 'req_msg'
        es = self.writer(rpc.client(self.p), cls, 'request')
        ds, lens = [], set()
        fixed = rpc.fixed_buffers(self.p, SES)

        def sink(t, eng, st, ev):
            if ev.kind == 'call' and ev.name.endswith('process_req') and len(ev.args) > 1:
                bufs = []
                for x in st.meta:
                    self.bufs_in(x, bufs)
                bufs = [b for b in bufs if b in owned(eng, st)]
                if bufs:
                    d = self.decoded(t, eng, st, bufs, ev.args[1], ev.site)
                    d.bufs = [bsize(st, b) for b in bufs]
                    ds.append(d)
            elif ev.kind == 'buf' and ev.name == 'alloc' and ev.args[1][:2] == ('app', 'get.int'):
                v = ev.args[1]
                if v[2] in {('fld', THIS, f) for f in fixed}:
                    lens.add((v[4], ev.site))

        def owned(eng, st):
            return {v for k, v in st.store.items() if len(k) == 2 and k[0] == THIS} | {('fld', THIS, f['n']) for _, f in classfields(self.p, SES)}
        for en in rpc.session(self.p):
            self.en = en
            t, eng, res = self.tape(en, sink, NetTape)
            for site, v in set(t.narrowed):
                self.bad('narrow', site, 'the value %s is cut after it is read' % v, None)
        if not ds or not lens:
            raise AnalysisBroken('the session does not decode requests')
        self.en = Entry('request', self.p.method(SES, 'start'), THIS, (), kind=('frame', ''))
        for E in es:
            off, place = C(0), None
            for x in E.raw:
                if x[0] == '*':
                    break
                if x[2] == 'int' and path(x[3], None) is None and self.is_len(E, x):
                    place = off
                off = add(off, x[4])
            if place is None:
                self.bad('length', E.site, 'the frame does not tell how much log data follows', None)
            else:
                for p, site in lens:
                    self.ob('length', site)
                    if norm(p) != norm(place):
                        self.bad('length', site, 'the length of the log data is read at %s, but written at %s' % (show(p), show(place)), None)
            for n in fixed.values():
                if E.total != n:
                    self.bad('header', E.site, 'the header is %s bytes long, but the session reads %s' % (show(E.total), show(n)), None)
            for x in self.inner(E.raw):
                if x[2] == 'raw' and len(x) > 5 and x[5] != C(0):
                    self.bad('whole', E.site, 'the content of an entry is not sent from its start', None)
            for D in ds:
                self.match('request', E, D)
        self.stars('request', es, ds, self.endsite())
        self.all_fields('request', cls, es, es[0].site)
        return self.stats

    def inner(self, its):
        for x in its:
            if x[0] == '*':
                yield from self.inner(x[1])
            else:
                yield x

    def bufs_in(self, x, out):
        if x[0] == 'g' and x[1] not in out:
            out.append(x[1])
        elif x[0] == '*':
            for y in x[1]:
                self.bufs_in(y, out)

    def count(self, eng, st, x, counts):
        return x

    def is_len(self, E, x):
        w, s = width(E.raw)
        v = x[3]
        if s is None:
            return v == C(0)
        acc = [a for a, n in lin(v)[1] if a in E.tape.inc]
        if len(acc) != 1:
            return False
        d = E.tape.inc[acc[0]]
        return norm(loops_to_idx(self.sizes(E.tape, E.st, d))) == norm(loops_to_idx(s)) and sub(sub(v, acc[0]), d) == C(0)

    def compatible(self, E, D):
        return True

    def same_other(self, E, D, x, y):
        return x[0] == 'int'

    def differ(self, E, D, x, y):
        if x[0] == 'int' and x[1] is None and y[1] is None:
            return None     # the length, see above
        return Frames.differ(self, E, D, x, y)


class Response(Frames):
    name = 'response-frame'
    doc = 'the response frame the session writes is what the client reads'

    def run(self):
        cls = NS + 'resp_msg'
        es = self.writer(rpc.session(self.p), cls, 'response')
        ds = []

        def sink(t, eng, st, ev):
            if ev.kind == 'invoke' and ev.args[0] == WD and len(ev.args) > 1 and ev.args[1] is not None and ev.args[1][0] == 'new':
                bufs = []
                for x in st.meta:
                    if x[0] == 'g' and x[1] not in bufs:
                        bufs.append(x[1])
                if bufs:
                    d = self.decoded(t, eng, st, bufs, ev.args[1], ev.site)
                    d.bufs = [bsize(st, b) for b in bufs]
                    ds.append(d)
        for en in rpc.client(self.p):
            self.en = en
            t, eng, res = self.tape(en, sink, NetTape)
            for site, v in set(t.narrowed):
                self.bad('narrow', site, 'the value %s is cut after it is read' % v, None)
        if not ds:
            raise AnalysisBroken('the client does not decode responses')
        self.en = Entry('response', self.p.method(CLI, 'send'), THIS, (), kind=('frame', ''))
        for E in es:
            for D in ds:
                self.match('response', E, D)
                if sum(b[1] for b in D.bufs if b[0] == 'c') != (E.total[1] if E.total[0] == 'c' else None):
                    self.bad('length', D.site, 'the client reads %s bytes, the session sends %s' % ([show(b) for b in D.bufs], show(E.total)), None)
        self.all_fields('response', cls, es, es[0].site)
        return self.stats


RULES = [Classes, Request, Response]
