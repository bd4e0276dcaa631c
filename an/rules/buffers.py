"""C19: buffer operations stay within the buffer.  C18 (primitives): what put writes, get reads."""
from ..rule import *
from ..raft import Entry
from ..bufmodel import BUF
from ..engine import strip

TOP = 0x80000000
HEAD = {'small': 4, 'big': 8}
WIDTHS = {'unsigned char': 1, 'int': 4, 'unsigned long': 8, 'char': 1}
COPY = ('memcpy', 'memmove', 'std::memcpy', 'std::memmove')


def other(t):
    """the type of a parameter denotes another buffer"""
    return BUF in t or t.replace('&', '').strip() in ('cornerstone::bufptr', 'bufptr')


def alloc_model(eng, what, e, st, obj, args, **kw):
    if what == 'ext' and e.get('q') in ('memchr', 'std::memchr') and len(args) == 3:
        p, c, n = (eng.val(st, a) for a in args)
        eng.emit(st, 'ext', 'memchr', (p, c, n), e)
        hit = st.copy()
        i = eng.fresh(hit, 'found', True)
        hit.facts = hit.facts.add_le(C(0), i)
        f = hit.facts.add_le(add(i, C(1)), n)
        f = f and f.add_eq(eng.deref(hit, add(p, i)), c)
        out = [(st, NULL)]
        if f is not None:
            hit.facts = f
            out.append((hit, add(p, i)))
        return out
    if what == 'call' and e.get('cls') == BUF and e['name'] == 'alloc':
        n = eng.val(st, args[0])
        out = []
        for lay in ('small', 'big'):
            s = st.copy()
            eng.tick(s)
            o = ('new', BUF, s.n)
            s.set((o, '#lay'), ('str', lay))
            s.set((o, '#size'), n)
            s.set((o, '#pos'), C(0))
            f = assume(s.facts, lay, n)
            if f is not None:
                s.facts = f
                out.append((s, o))
        if not out:
            st.ctl = ('exc', 'std::out_of_range')
            return [(st, None)]
        return out
    return None


def assume(f, lay, size):
    lo, hi = (0, 0x7fff) if lay == 'small' else (0x8000, 0x7fffffff)
    f = f.add_le(C(lo), size)
    return f and f.add_le(size, C(hi))


class Extent(Rule):
    name = 'buffer-extent'
    doc = 'every memory access of a buffer operation lies in the bytes of the buffer; the position advances by what was transferred'
    plain = True
    maythrow = False
    models = (alloc_model,)
    cost = 1
    must_see = ('access', 'position', 'alloc', 'header')
    hard = frozenset(('#lay', '#touch', '#pos'))
    split_exits = True

    @classmethod
    def entries(cls, prog, cb, ens):
        out = []
        fs = [f for f in prog.fns.values() if f.get('cls') == BUF and f.get('body') and not f.get('ctor') and '(' not in f['name']]
        fs += [f for f in prog.fns.values() if f['q'] in (NS + 'operator<<', NS + 'operator>>') and any(BUF in p['t'] for p in f['params'])]
        for f in sorted(fs, key=lambda f: f['ln']):
            free = f.get('cls') != BUF or f.get('static') or f['name'] in ('alloc', 'copy')
            objs = [] if free else [THIS]
            vals = tuple(('sym', 'arg_' + p['n']) for p in f['params'])
            objs += [v for v, p in zip(vals, f['params']) if other(p['t'])]
            combos = [()]
            for o in objs:
                combos = [c + ((o, l),) for c in combos for l in ('small', 'big')]
            for c in combos:
                name = '%s(%s)%s' % (f['name'], ','.join(p['t'].split('::')[-1][:12] for p in f['params']), ''.join('/' + l for _, l in c))
                en = Entry(name, f, THIS, vals, kind=('buffer', f['name']))
                en.objs = c
                out.append(en)
        if len(out) < 20:
            raise AnalysisBroken('the operations of buffer are not found')
        return out

    def boundary(self, eng, callee):
        return callee.get('cls') == BUF and callee['name'] == 'alloc'

    def split(self, eng, st):
        if self.en.objs and self.en.objs[0][0] == THIS and len(self.en.vals) == 1:
            return st.meta, st.facts.decide_le(self.en.vals[0], ('app', 'bufsize', THIS))
        return st.meta

    def prepare(self, eng, st, en):
        for o, lay in en.objs:
            s, p = nn(('app', 'bufsize', o)), nn(('app', 'bufpos', o))
            st.set((o, '#lay'), ('str', lay))
            st.set((o, '#size'), s)
            st.set((o, '#pos'), p)
            st.set((o, '#touch'), C(0))
            st.facts = assume(st.facts, lay, s).add_le(C(0), p).add_le(p, s)
            st.facts = st.facts.add_ne(o, NULL) or st.facts
        for v, p in zip(en.vals, en.fn['params']):
            if p['t'] in ('unsigned long', 'const unsigned long', 'size_t', 'const size_t') or 'size_t' in p['t']:
                nn(v)

    # ---- memory
    def base(self, st, p):
        """-> (buffer or array, offset)"""
        c, items = lin(st.facts.canon(p))
        for a, n in items:
            if n == 1 and ((a, '#lay') in st.store or (a, '#len') in st.store):
                return a, sub(mk(c, dict(items)), a)
        return None, None

    def bits(self, eng, op, a, b):
        if a[0] == 'c' and op in '&|^':
            a, b = b, a
        if b[0] != 'c':
            return None
        h = a
        c, items = lin(a)
        if len(items) == 1 and items[0][1] == 1 and items[0][0][0] == 'hdr':
            h = items[0][0]
        if h[0] != 'hdr' or c not in (0, TOP):
            if op == '|' and b[1] == TOP and not (c & TOP) and 'hdr' not in repr(a):
                return add(a, b)
            return None
        top = c == TOP
        if op == '&' and b[1] == TOP:
            return C(TOP if top else 0)
        if op == '>>' and b[1] == 31:
            return C(1 if top else 0)
        if top and (op == '^' and b[1] == TOP or op == '&' and b[1] == TOP - 1):
            return h[2]
        return None

    def place(self, st, p, w):
        o, off = self.base(st, p)
        if o is None:
            return None, None, None
        lay = st.store.get((o, '#lay'))
        return o, off, lay and lay[1]

    def load(self, eng, st, p, w, e):
        o, off, lay = self.place(st, p, w)
        if o is None:
            return None
        if lay is None:
            return self.cell(eng, st, o, off, w, e)
        if off[0] == 'c' and off[1] < HEAD[lay]:
            self.ob('header', eng.site(e))
            sz, ps = st.store[(o, '#size')], st.store[(o, '#pos')]
            if off[1] == 0 and w == 4:
                return add(('hdr', o, sz), C(TOP)) if lay == 'big' else ('hdr', o, sz)
            if (off[1], w) == ((0, 2) if lay == 'small' else (9, 9)):
                return sz
            if (off[1], w) == ((2, 2) if lay == 'small' else (4, 4)):
                return ps
            if not eng.quiet:
                self.bad('header', eng.site(e), 'reads %d bytes at %d of a %s buffer\'s header' % (w, off[1], lay), st)
            return eng.fresh(st, 'badheader')
        self.span(eng, st, p, C(w), eng.site(e), 'read')
        return None

    def cell(self, eng, st, o, off, w, e):
        if off[0] == 'c':
            v = st.store.get((o, '#c%d:%d' % (off[1], w)))
            if v is not None:
                return v
        return eng.fresh(st, 'cell')

    def save(self, eng, st, p, w, v, e):
        o, off, lay = self.place(st, p, w)
        if o is None:
            return False
        if lay is None:
            self.inside(eng, st, o, off, C(w), C(0), st.store[(o, '#len')], eng.site(e), 'write')
            if off[0] != 'c':
                return True
            for k in list(st.store):
                if k[0] == o and k[1].startswith('#c'):
                    a, b = map(int, k[1][2:].split(':'))
                    if a < off[1] + w and off[1] < a + b:
                        st.set(k, eng.fresh(st, 'cell'))
            st.set((o, '#c%d:%d' % (off[1], w)), v)
            return True
        if off[0] == 'c' and off[1] < HEAD[lay]:
            self.ob('header', eng.site(e))
            if (off[1], w) == ((2, 2) if lay == 'small' else (4, 4)):
                st.set((o, '#pos'), v)
            elif not eng.quiet:
                self.bad('header', eng.site(e), 'writes %d bytes at %d of a %s buffer\'s header' % (w, off[1], lay), st)
            return True
        self.span(eng, st, p, C(w), eng.site(e), 'write')
        eng.emit(st, 'mem', 'write', (p, C(w), v), e)
        eng.tick(st)
        st.set(('#memv',), ('ver', st.n))
        return True

    def span(self, eng, st, p, n, site, what):
        """n bytes at p are accessed"""
        o, off, lay = self.place(st, p, 0)
        if o is None:
            return
        st.set((o, '#touch'), C(1))
        h = C(HEAD[lay]) if lay else C(0)
        end = add(st.store[(o, '#size')], h) if lay else st.store[(o, '#len')]
        self.inside(eng, st, o, off, n, h, end, site, what)

    def inside(self, eng, st, o, off, n, lo, end, site, what):
        if eng.quiet:
            return
        self.ob('access', site)
        if st.facts.decide_le(n, C(0)) is True and st.facts.decide_le(C(0), n) is True:
            return
        if st.facts.decide_le(lo, off) is not True:
            self.bad('before:' + what, site, '%s may access memory before the bytes of the buffer' % what, st)
        elif st.facts.decide_le(add(off, n), end) is not True:
            self.bad('beyond:' + what, site, '%s of %s bytes may reach beyond the end of the buffer' % (what, show(n)), st)
        if st.facts.decide_le(C(0), n) is not True:
            self.bad('negative:' + what, site, 'the number of bytes of a %s may be negative' % what, st)

    def event(self, eng, st, ev):
        if st.ctl:
            return
        if ev.kind == 'ext':
            a, nm = ev.args, ev.name
            if nm in COPY and len(a) >= 3:
                self.span(eng, st, a[0], a[2], ev.site, 'write')
                self.span(eng, st, a[1], a[2], ev.site, 'read')
                return
            for i, x in enumerate(a):
                if not is_term(x) or self.base(st, x)[0] is None or x[0] == 'new' or x == THIS:
                    continue
                o = self.base(st, x)[0]
                if i + 1 < len(a) and is_term(a[i + 1]) and self.base(st, a[i + 1])[0] == o:
                    self.span(eng, st, x, sub(a[i + 1], x), ev.site, 'range')
                    if len(a) > i + 2 and nm in ('std::copy', 'std::move') and self.base(st, a[i + 2])[0] is not None:
                        self.span(eng, st, a[i + 2], sub(a[i + 1], x), ev.site, 'write')
                    return
                m = nm.split('::')[-1]
                if m in ('write', 'read') and i + 1 < len(a):
                    self.span(eng, st, x, a[i + 1], ev.site, 'read' if m == 'write' else 'write')
                elif m in ('memchr', 'memset', 'copy_n', 'strnlen') and len(a) > i + 1:
                    self.span(eng, st, x, a[-1] if m != 'copy_n' else a[1], ev.site, m)
                elif m in ('strlen', 'strcpy', 'strcmp') and not eng.quiet:
                    self.bad('unbounded', ev.site, '%s looks for the end of a string without a bound' % m, st)

    def narrow(self, eng, st, v, e):
        w = eng.typesize(e['t'])
        if w == 1 or v[0] == 'opaque':
            return
        site = eng.site(e)
        top = {2: 0xffff, 4: 0xffffffff if 'unsigned' in strip(e['t']) else 0x7fffffff}.get(w)
        if top is None:
            return
        self.ob('narrow', site)
        if st.facts.decide_le(v, C(top)) is False or not self.fits(st, v, top):
            self.bad('narrow', site, 'a value that may exceed %#x is cut to %d bytes' % (top, w), st)

    def fits(self, st, v, top):
        return st.facts.decide_le(v, C(top)) is True

    # ---- at the end
    def transferred(self, st, o):
        """bytes the operation is meant to move the position of o by; None: unspecified"""
        f = self.en.fn
        if o != THIS or not self.en.objs or self.en.objs[0][0] != THIS:
            return C(0)
        name, ps = f['name'], f['params']
        if name in ('get_int', 'get_ulong', 'get_byte'):
            return C({'get_int': 4, 'get_ulong': 8, 'get_byte': 1}[name])
        if name == 'get' or name == 'put' and other(ps[0]['t']):
            b = self.en.vals[0]
            return sub(('app', 'bufsize', b), ('app', 'bufpos', b))
        if name == 'put':
            t = strip(ps[0]['t'])
            if t in WIDTHS:
                return C(WIDTHS[t])
            return add(self.eng.strlen(st, self.en.vals[0]) if hasattr(self.eng, 'strlen') else ('app', 'length', self.en.vals[0]), C(1))
        if name == 'get_str' or name == 'pos' and ps:
            return None
        return C(0)

    def final(self, eng, st):
        if st.ctl and st.ctl[0] not in ('done', 'exc'):
            return
        name, ps, site = self.en.fn['name'], self.en.fn['params'], self.endsite()
        exc = bool(st.ctl) and st.ctl[0] == 'exc'
        ret = st.ctl[1] if st.ctl and not exc and len(st.ctl) > 1 else None
        moved = {}
        for o, lay in self.en.objs:
            sz, p0, p1 = ('app', 'bufsize', o), ('app', 'bufpos', o), st.store[(o, '#pos')]
            self.ob('position', site)
            moved[o] = sub(p1, p0)
            if st.facts.decide_le(p1, sz) is not True:
                self.bad('end', site, 'the position may pass the end of the buffer', st)
            elif st.facts.decide_le(C(0), p1) is not True:
                self.bad('end', site, 'the position may become negative', st)
            want = C(0) if exc else self.transferred(st, o)
            if want is not None and st.facts.decide_eq(p1, add(p0, want)) is not True:
                self.bad('advance', site, 'the position moves by %s and not by %s, the bytes transferred' % (show(sub(p1, p0)), show(want)), st)
            if exc and o == THIS and st.store[(o, '#touch')] != C(0):
                self.bad('partial', site, 'fails after it has accessed the buffer', st)
            if sz != st.store[(o, '#size')]:
                self.bad('size', site, 'the size of the buffer changes', st)
        if exc:
            return
        if name == 'size' or name == 'pos' and not ps:
            w = ('app', 'buf' + name, THIS)
            if st.facts.decide_eq(ret, w) is not True:
                self.bad('accessor', site, '%s() does not return the %s of the buffer' % (name, name), st)
        elif name == 'data':
            o, off, lay = self.place(st, ret, 0)
            if o != THIS or st.facts.decide_eq(off, add(C(HEAD[lay]), ('app', 'bufpos', THIS))) is not True:
                self.bad('accessor', site, 'data() is not where the position is', st)
        elif name == 'pos':
            a, sz = self.en.vals[0], ('app', 'bufsize', THIS)
            p1 = st.store[(THIS, '#pos')]
            d = st.facts.decide_le(a, sz)
            if d is not False and st.facts.decide_eq(p1, a) is not True and not (
                    st.facts.decide_le(sz, a) is True and st.facts.decide_eq(p1, sz) is True):
                self.bad('seek', site, 'pos(p) leaves another position than p', st)
        elif name == 'get_str':
            p0 = ('app', 'bufpos', THIS)
            lay = self.en.objs[0][1]
            d = add(add(THIS, C(HEAD[lay])), p0)
            if st.facts.decide_eq(ret, NULL) is True:
                if st.facts.decide_eq(moved[THIS], C(0)) is not True:
                    self.bad('advance', site, 'no string is returned, but the position moves', st)
            elif st.facts.decide_eq(ret, d) is not True:
                self.bad('string', site, 'the string returned does not start at the position', st)
            else:
                last = add(d, sub(moved[THIS], C(1)))
                if not any(self.zero(st, t, last) for t in self.mems(st)):
                    self.bad('string', site, 'the position does not end up right after a terminating zero byte', st)
        elif name == 'alloc':
            self.allocated(eng, st, ret, site)
        elif name == 'copy':
            src = self.en.vals[0]
            want = sub(('app', 'bufsize', src), ('app', 'bufpos', src))
            if (ret, '#size') not in st.store or st.facts.decide_eq(st.store[(ret, '#size')], want) is not True or \
                    st.facts.decide_eq(st.store[(ret, '#pos')], C(0)) is not True:
                self.bad('copy', site, 'the copy does not hold just the bytes from the position on, or is not at its start', st)

    def mems(self, st):
        out = []
        for t in list(st.facts.sb) + [x for f in st.facts.le for x in atoms_of(f)]:
            if t[0] == 'app' and t[1] == 'mem':
                out.append(t)
        return out

    def zero(self, st, t, at):
        return st.facts.decide_eq(t, C(0)) is True and st.facts.decide_eq(t[2], at) is True

    def allocated(self, eng, st, ret, site):
        self.ob('alloc', site)
        n = self.en.vals[0]
        ln = st.store.get((ret, '#len'))
        if ln is None:
            self.bad('alloc', site, 'the buffer returned is not a fresh block of memory', st)
            return
        c = {k[1]: v for k, v in st.store.items() if k[0] == ret and k[1].startswith('#c')}
        eq = lambda k, v: k in c and st.facts.decide_eq(c[k], v) is True
        big = eq('#c0:4', add(n, C(TOP))) and eq('#c4:4', C(0)) and st.facts.decide_le(n, C(0x7fffffff)) is True
        small = eq('#c0:2', n) and eq('#c2:2', C(0)) and st.facts.decide_le(n, C(0x7fff)) is True
        if not big and not small:
            self.bad('alloc', site, 'the header of the new buffer does not hold its size and position 0 in a form its size fits in', st)
        elif st.facts.decide_le(add(n, C(8 if big else 4)), ln) is not True:
            self.bad('alloc', site, 'fewer bytes are allocated than the header and the buffer\'s size need', st)




class Bytes(Extent):
    name = 'buffer-bytes'
    doc = 'byte k of a number is written from, and read into, bits 8k to 8k+7; strings and buffers are transferred byte for byte'
    must_see = ('header',)
    NAMES = ('put', 'get', 'get_int', 'get_ulong', 'get_byte')

    @classmethod
    def entries(cls, prog, cb, ens):
        return [en for en in Extent.entries(prog, cb, ens) if en.fn['name'] in cls.NAMES]

    def rel(self, st, o, off):
        lay = st.store.get((o, '#lay'))
        p0 = ('app', 'bufpos', o)
        return sub(off, add(C(HEAD[lay[1]]), p0)) if lay else None

    def bits(self, eng, op, a, b):
        if op == '>>' and a in self.en.vals:
            return ('app', 'shr', a, b)
        if op == '&' and b == C(0xff) and a[0] == 'app' and a[1] in ('shr', 'dbyte'):
            return a
        if op == '<<' and a[:2] == ('app', 'dbyte') and a[2] == THIS:
            if not eng.quiet:
                self.ob('byte', self.endsite())
                if sub(b, mul8(a[3])) != C(0):
                    self.bad('order', self.endsite(), 'byte %s is read into the bits from %s on' % (show(a[3]), show(b)), None)
            return None
        return Extent.bits(self, eng, op, a, b)

    def load(self, eng, st, p, w, e):
        v = Extent.load(self, eng, st, p, w, e)
        if v is None and w == 1:
            o, off, lay = self.place(st, p, w)
            if o is not None and lay is not None:
                if o == THIS and self.en.fn['name'] != 'put':
                    self.reach(eng, st, self.rel(st, o, off), w)
                return ('app', 'dbyte', o, self.rel(st, o, off))
        return v

    def width(self):
        name, ps = self.en.fn['name'], self.en.fn['params']
        t = {'get_int': 'int', 'get_ulong': 'unsigned long', 'get_byte': 'unsigned char'}.get(name) or (strip(ps[0]['t']) if name == 'put' else None)
        return WIDTHS.get(t)

    def reach(self, eng, st, r, w):
        n = self.width()
        if n is None or eng.quiet:
            return
        self.touched = True
        if st.facts.decide_le(add(r, C(w)), C(n - 1)) is not True:
            self.ends |= {'last'}
        if st.facts.decide_le(C(1), r) is not True:
            self.ends |= {'first'}

    def begin(self, en):
        self.touched, self.ends = False, frozenset()

    def done(self, eng, res):
        if self.touched:
            for x in ('first', 'last'):
                if x not in self.ends:
                    self.bad('missing', self.endsite(), 'the %s byte of the number is never transferred' % x, None)

    def save(self, eng, st, p, w, v, e):
        o, off, lay = self.place(st, p, w)
        if o is not None and lay is not None and not (off[0] == 'c' and off[1] < HEAD[lay]) and not eng.quiet:
            r, site = self.rel(st, o, off), eng.site(e)
            self.ob('byte', site)
            if o == THIS:
                self.reach(eng, st, r, w)
            if w == 1 and is_term(v):
                if v[:2] == ('app', 'shr') and sub(v[3], mul8(r)) != C(0):
                    self.bad('order', site, 'byte %s is written from the bits from %s on' % (show(r), show(v[3])), st)
                elif v in self.en.vals and st.facts.decide_eq(r, C(0)) is not True:
                    self.bad('order', site, 'byte %s is written from the lowest bits' % show(r), st)
                elif v[:2] == ('app', 'dbyte') and v[3] != r:
                    self.bad('order', site, 'byte %s is written from byte %s' % (show(r), show(v[3])), st)
        return Extent.save(self, eng, st, p, w, v, e)

    def event(self, eng, st, ev):
        if st.ctl or ev.kind != 'ext' or ev.name not in COPY or len(ev.args) < 3:
            return
        d, s, n = ev.args
        (od, fd), (os, fs) = self.base(st, d), self.base(st, s)
        if od is None or os is None or not self.rel(st, od, fd) or not self.rel(st, os, fs):
            return
        self.ob('transfer', ev.site)
        to, frm = (THIS, self.en.vals[0]) if self.en.fn['name'] == 'put' else (self.en.vals[0], THIS)
        if (od, os) != (to, frm):
            self.bad('direction', ev.site, 'the bytes are copied in the wrong direction', st)
        elif self.rel(st, od, fd) != self.rel(st, os, fs):
            self.bad('order', ev.site, 'byte %s is written from byte %s' % (show(self.rel(st, od, fd)), show(self.rel(st, os, fs))), st)
        elif self.rel(st, od, fd) == C(0):
            o = self.en.vals[0]
            want = sub(('app', 'bufsize', o), ('app', 'bufpos', o))
            if st.facts.decide_eq(n, want) is not True and st.facts.decide_le(C(1), n) is not False and st.facts.decide_le(want, n) is not True:
                self.bad('length', ev.site, '%s bytes are transferred, not %s' % (show(n), show(want)), st)

    def narrow(self, eng, st, v, e):
        pass

    def inside(self, *a):
        pass

    def final(self, eng, st):
        pass


def mul8(t):
    c, items = lin(t)
    return mk(8 * c, {a: 8 * n for a, n in items})


RULES = [Extent, Bytes]
