"""C23, C24: the file log store.  Files are followed byte range by byte range (see filemodel)."""
from ..rule import *
from ..raft import Entry
from ..bufmodel import buf_model, bsize, bpos, BUF
from ..engine import strip
from .. import terms as T
from .. import filemodel as F
from ..filemodel import Files, IDX, DAT, STI, off, segs, setsegs, real, fget, fset, flen, gen, LE, K

FS = NS + 'fs_log_store'
MEMBERS = {'idx_file_': IDX, 'data_file_': DAT, 'start_idx_file_': STI}
N, S, BUFP = 'entries_in_store_', 'start_idx_', 'buf_'


def member_files(prog):
    """{member: name of the file it is opened on}, from the constructor"""
    cache = prog.__dict__.setdefault('_fsfiles', {})
    if cache:
        return cache
    out = {}

    class H(Rule):
        plain = True
        maythrow = False
        name = 'files'

        def event(self, eng, st, ev):
            if ev.kind == 'ext' and ev.name.endswith('::open') and len(ev.args) > 1 and ev.args[0][0] in ('fld', 'sub'):
                f = F.fname(ev.args[1])
                if f:
                    out.setdefault(ev.args[0][2], f)
    for f in prog.find(FS + '::fs_log_store'):
        run_rule(prog, H(prog), Entry('ctor', f, THIS, tuple(('sym', 'arg_' + p['n']) for p in f['params']), kind=('ctor',)))
    if not all(m in out for m in MEMBERS):
        raise AnalysisBroken('the files of the log store are not found')
    cache.update(out)
    return cache


class Store(Files, Rule):
    plain = True
    maythrow = False
    needs_raft = False
    induct = True
    hard = frozenset(('start_idx_', '#n', '#flen', '#end', '#keep', '#fpos', '#ok', '#dirty', '#fc', '#put', '#enc', '#path', '#from', '#new', '#cut', '#holes', '#chk', '#shift', '#first', '#size', '#pos', 'buf_size_', 'max_size_', N))
    split_exits = True
    lost = False
    FNS = ()

    def __init__(self, prog):
        Rule.__init__(self, prog)
        self.member_files = member_files(prog)
        self.roles = {self.member_files[m]: r for m, r in MEMBERS.items()}
        self.file = {r: f for f, r in self.roles.items()}
        self.start0 = ('fld', THIS, S)

    @property
    def models(self):
        return (self.model, buf_model, raft_model)

    @classmethod
    def entries(cls, prog, cb, ens):
        out = []
        for n in cls.FNS:
            f = prog.method(FS, n)
            if f is None:
                raise AnalysisBroken('no %s in fs_log_store' % n)
            vals = tuple(('sym', 'arg_' + p['n']) for p in f['params'])
            for lit in ('empty', 'filled'):
                en = Entry('%s/%s' % (n, lit), f, THIS, vals, kind=('store', n))
                en.lit = lit
                out.append(en)
        return out

    def boundary(self, eng, callee):
        return callee.get('cls') == BUF or callee.get('cls') == LE and callee['name'] in ('serialize', 'deserialize')

    def split(self, eng, st):
        # where the indices lie is kept apart
        f = st.facts
        ix = [v for v, p in zip(self.en.vals, self.en.fn['params']) if strip(p['t']) == 'unsigned long']
        bs = ('fld', self.b, 'start_idx_')
        nxt = add(self.s0, self.n0)
        out = [st.meta]
        for v in ix:
            out += [f.decide_le(bs, v), f.decide_le(nxt, v)]
        if len(ix) > 1:
            out.append(f.decide_le(ix[1], ix[0]))
        return tuple(out)

    @property
    def meta0(self):
        return tuple(sorted([(f, ()) for f in self.roles] + [('#gen', 0)], key=repr))

    def prepare(self, eng, st, en):
        n, s = nn(('fld', THIS, N)), nn(('fld', THIS, S))
        b = ('fld', THIS, BUFP)
        self.n0, self.s0, self.b = n, s, b
        bs = nn(('fld', b, 'start_idx_'))
        self.vec = ('sub', b, 'buf_')
        v = eng.peek(st, b, 'buf_', 'std::vector<std::shared_ptr<cornerstone::log_entry>>')
        if v is not None:
            self.vec = v
        T.NEVERNULL.add(self.vec)
        m = nn(eng.csize(st, self.vec))
        mx, bz = nn(('fld', b, 'max_size_')), nn(('fld', THIS, 'buf_size_'))
        f = st.facts
        f = f.add_ne(b, NULL).add_le(C(1), s).add_le(s, bs).add_eq(add(bs, m), add(s, n)).add_le(m, mx).add_eq(mx, bz).add_le(C(1), mx)
        for g in (0, 1, 2):
            f = f.add_eq(('app', 'off', C(g), C(0)), C(0))
        if en.lit == 'empty':
            f = f.add_eq(n, C(0)).add_eq(m, C(0))
        else:
            f = f.add_le(C(1), n).add_le(C(1), m)
        for v, p in zip(en.vals, en.fn['params']):
            if strip(p['t']) in ('unsigned long', 'size_t'):
                nn(v)
            if p['t'].rstrip().endswith('&'):
                f = f.add_ne(v, NULL)
            if p['t'].strip() == 'int':
                f = f.add_le(C(1), v)
        st.facts = f
        fset(st, self.file[IDX], '#flen', scale(n, 8))
        fset(st, self.file[DAT], '#flen', off(0, n))
        fset(st, self.file[STI], '#flen', C(8))
        for r in (IDX, DAT, STI):
            fset(st, self.file[r], '#keep', C(0))
            fset(st, self.file[r], '#end', C(0))

    # ---- values
    def cur(self, eng, st, o, f):
        v = st.store.get((o, f))
        return v if v is not None else ('fld', o, f)

    def shape(self, eng, st):
        """(entries, start, first in memory, number in memory)"""
        return self.cur(eng, st, THIS, N), self.cur(eng, st, THIS, S), self.cur(eng, st, self.b, 'start_idx_'), eng.csize(st, self.vec)

    def index_of(self, eng, st, v):
        """the log index of an entry object; None: not known"""
        if v is None or not is_term(v):
            return None
        if v[:2] == ('app', 'elem') and v[2] == self.vec:
            return add(self.cur(eng, st, self.b, 'start_idx_'), v[4])
        fr = st.store.get((v, '#from'))
        if fr is not None and self.roles.get(fr[1]) == DAT:
            _, f, p, n, g = fr
            i = self.at(g, p)
            if i is not None and st.facts.decide_eq(add(p, n), off(g, add(i, C(1)))) is True:
                return add(i, self.start_of(eng, st, g))
            if i is not None:
                # the last one reaches to the end of the file
                nn_ = self.count_of(eng, st, g)
                if st.facts.decide_eq(add(i, C(1)), nn_) is True and st.facts.decide_eq(add(p, n), off(g, nn_)) is True:
                    return add(i, self.start_of(eng, st, g))
        return None

    def at(self, g, p):
        if p == C(0):
            return C(0)
        return p[3] if p[:2] == ('app', 'off') and p[2] == C(g) else None

    def start_of(self, eng, st, g):
        return self.s0 if g == 0 else self.cur(eng, st, THIS, S)

    def count_of(self, eng, st, g):
        return self.n0 if g == 0 else self.cur(eng, st, THIS, N)


    def within(self, eng, st, f, p):
        """offsets of entries do not pass the end of the data file"""
        if Files.within(self, eng, st, f, p):
            return True
        if self.roles.get(f) != DAT:
            return False
        if p[:2] == ('app', 'off'):
            return st.facts.decide_le(p[3], self.count_of(eng, st, gen(st))) is True
        c, items = lin(p)
        if c == 8 and len(items) == 1:
            # the term every entry starts with
            i = self.at(gen(st), items[0][0])
            return i is not None and st.facts.decide_le(add(i, C(1)), self.count_of(eng, st, gen(st))) is True
        return p == C(8)


class Reads(Store):
    name = 'store-reads'
    doc = 'what entry_at, term_at, log_entries, last_entry, next_slot and start_index return is what is stored at those indices, read from where it lies; ' \
          'an index before the start is refused, one past the end gives nothing, and no read passes the end of a file'
    FNS = ('entry_at', 'term_at', 'log_entries', 'last_entry', 'next_slot', 'start_index', 'pack')
    must_see = ('result', 'read')
    cost = 3

    def event(self, eng, st, ev):
        if st.ctl:
            return
        n = self.en.kind[1]
        if ev.kind == 'file' and ev.name == 'read':
            o, f, p, l = ev.args
            self.ob('read', ev.site)
            if n == 'term_at':
                # failing is an answer for what is not there
                cnt, s, _, _ = self.shape(eng, st)
                fa = st.facts.add_le(add(self.en.vals[0], C(1)), add(s, cnt))
                if fa is None:
                    return
                st = st.copy()
                st.facts = fa
            if not self.within(eng, st, f[1], add(p, l)):
                self.bad(n + '/past-end', ev.site, 'may read past the end of the file, which fails', st)
        elif ev.kind == 'file' and ev.name in ('write', 'truncate', 'remove'):
            self.bad(n + '/changes', ev.site, 'reading changes a file', st)
        elif ev.kind == 'cont' and n == 'log_entries' and ev.name in ('push', 'set') and ev.args[0] != self.vec:
            c, v, at = (ev.args[0], ev.args[1], ev.args[2]) if ev.name == 'push' else (ev.args[0], ev.args[2], ev.args[1])
            self.ob('element', ev.site)
            if v == NULL:
                st.set((c, '#holes'), C(1))
                return
            i = self.index_of(eng, st, v)
            want = add(self.en.vals[0], at)
            if i is None or st.facts.decide_eq(i, want) is not True:
                self.bad('log_entries/element', ev.site, 'element %s of the result is the entry at %s, not at %s' % (
                    show(at), show(i) if i is not None else '?', show(want)), st)
            elif ev.name == 'set':
                eng.cover(st, 'set', ('space', 'res'), at)

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done':
            if st.ctl and st.ctl[0] == 'exc' and self.en.kind[1] in ('entry_at', 'log_entries', 'term_at', 'pack'):
                self.refused(eng, st)
            return
        n, v, site, f = self.en.kind[1], st.ctl[1], self.endsite(), st.facts
        a = self.en.vals
        cnt, s, bs, m = self.shape(eng, st)
        nxt = add(s, cnt)
        self.ob('result', site)
        if n == 'next_slot':
            if f.decide_eq(v, nxt) is not True:
                self.bad(n, site, 'returns %s' % show(v), st)
        elif n == 'start_index':
            if f.decide_eq(v, s) is not True:
                self.bad(n, site, 'returns %s' % show(v), st)
        elif n == 'last_entry':
            if self.en.lit == 'filled':
                i = self.index_of(eng, st, v)
                if i is None or f.decide_eq(i, sub(nxt, C(1))) is not True:
                    self.bad(n, site, 'does not return the last entry but %s' % show(v), st)
            elif v[:2] == ('app', 'elem'):
                self.bad(n, site, 'returns an entry although there is none', st)
        elif n in ('entry_at', 'term_at'):
            i = a[0]
            if f.decide_le(s, i) is not True:
                self.bad(n + '/before', site, 'an index before the start is not refused', st)
            elif f.decide_le(nxt, i) is True:
                if v != NULL and v != C(0):
                    self.bad(n + '/past', site, 'returns something for an index past the end', st)
            elif f.decide_le(add(i, C(1)), nxt) is not True:
                self.bad(n + '/past', site, 'an index past the end is not told apart', st)
            else:
                if n == 'entry_at':
                    j = self.index_of(eng, st, v)
                elif v[:2] == ('app', 'termof'):
                    j = add(v[3], self.start_of(eng, st, v[2][1]))
                else:
                    j = self.index_of(eng, st, v[1]) if v[0] == 'fld' and v[2] == 'term_' else None
                if j is None or f.decide_eq(i, j) is not True:
                    self.bad(n + '/other', site, 'for %s the entry at %s is taken' % (show(i), show(j) if j is not None else '? (%s)' % show(v)), st)
        elif n == 'log_entries':
            self.listed(eng, st, v, site, nxt, s)
        elif n == 'pack':
            self.packed(eng, st, v, site, nxt, s)

    def refused(self, eng, st):
        """what is in the store is not refused"""
        what = st.ctl[1]
        n, s, _, _ = self.shape(eng, st)
        i, site = self.en.vals[0], self.endsite()
        if 'range_error' not in str(what):
            if 'overflow_error' in str(what) and self.en.kind[1] != 'term_at' and st.facts.decide_le(add(s, n), i) is True:
                self.bad(self.en.kind[1] + '/past', site, 'throws for an index past the end', st)
            return
        self.ob('refused', site)
        if st.facts.decide_le(add(i, C(1)), s) is not True:
            self.bad(self.en.kind[1] + '/refused', site, 'an index that is not before the start may be refused', st)

    def listed(self, eng, st, v, site, nxt, s):
        a, b = self.en.vals[:2]
        f = st.facts
        if f.decide_le(s, a) is not True:
            self.bad('log_entries/before', site, 'a range before the start is not refused', st)
            return
        if v == NULL:
            if f.decide_le(b, a) is not True and f.decide_le(nxt, a) is not True and not self.either(st, a, b, nxt):
                self.bad('log_entries/none', site, 'nothing is returned for a range that is not empty', st)
            return
        n = eng.csize(st, v)
        end = add(a, n)
        if f.decide_le(end, b) is not True:
            self.bad('log_entries/more', site, 'may return entries at or after the end of the range (%s of them)' % show(n), st)
        elif f.decide_le(end, nxt) is not True:
            self.bad('log_entries/more', site, 'may return entries past the end of the log', st)
        elif f.decide_le(b, end) is not True and f.decide_le(nxt, end) is not True:
            self.bad('log_entries/fewer', site, 'may return fewer entries than there are in the range: %s' % show(n), st)
        bs = self.cur(eng, st, self.b, 'start_idx_')
        # those not in memory
        if f.decide_le(bs, a) is not True and not any(f.decide_le(add(a, C(1)), x) is None for x in ()):
            hi = sub(bs, add(a, C(1)))
            last = sub(n, C(1))
            if not eng.covered(st, 'set', ('space', 'res'), C(0), hi) and not eng.covered(st, 'set', ('space', 'res'), C(0), last) and \
                    not self.all_pushed(eng, st, v):
                self.bad('log_entries/holes', site, 'entries that are not in memory may be left out', st)

    def all_pushed(self, eng, st, v):
        return not st.store.get((v, '#holes'))

    def either(self, st, a, b, nxt):
        return False

    def packed(self, eng, st, v, site, nxt, s):
        i, cnt = self.en.vals[:2]
        f = st.facts
        if f.decide_le(s, i) is not True:
            self.bad('pack/before', site, 'an index before the start is not refused', st)
            return
        if f.decide_eq(bsize(st, v), C(0)) is True:
            if f.decide_le(nxt, i) is not True:
                self.bad('pack/nothing', site, 'nothing is packed although there are entries', st)
            return
        parts = st.store.get((v, '#parts'), ('parts',))[1:]
        idx = [x for p, x in parts if x[0] == 'fc' and self.roles.get(x[1]) == IDX]
        dat = [x for p, x in parts if x[0] == 'fc' and self.roles.get(x[1]) == DAT]
        if len(idx) != 1 or len(dat) != 1:
            self.bad('pack/parts', site, 'a pack is not made of a piece of the index file and one of the data file', st)
            return
        (_, _, ip, il, g), (_, _, dp, dl, _) = idx[0], dat[0]
        want = ((C(0), il), (C(4), dl), (C(8), idx[0]), (add(C(8), il), dat[0]))
        if len(parts) != 4 or any(f.decide_eq(p, q) is not True or (x[1] if x[0] == 'val' else x) != y and
                                  not (x[0] == 'val' and is_term(y) and f.decide_eq(x[1], y) is True) for (p, x), (q, y) in zip(parts, want)):
            self.bad('pack/layout', site, 'a pack is not made of the two lengths, the positions and the data', st)
        a = sub(i, s)
        if f.decide_eq(ip, scale(a, 8)) is not True:
            self.bad('pack/index', site, 'packs the index file from %s on' % show(ip), st)
            return
        for end in (add(i, cnt), nxt):
            fa = f.add_le(end, add(i, cnt))
            fa = fa.add_le(end, nxt) if fa is not None else None
            if fa is None:
                continue
            n = sub(end, i)
            if fa.decide_eq(il, scale(n, 8)) is not True:
                self.bad('pack/count', site, 'packs %s bytes of the index file, not %s' % (show(il), show(scale(n, 8))), st)
            elif fa.decide_eq(dp, off(g, a)) is not True or fa.decide_eq(add(dp, dl), off(g, add(a, n))) is not True and \
                    fa.decide_eq(add(dp, dl), off(g, fa.canon(add(a, n)))) is not True:
                self.bad('pack/data', site, 'packs the data file from %s to %s' % (show(dp), show(add(dp, dl))), st)


class Writes(Store):
    name = 'store-writes'
    doc = 'after append, write_at, apply_pack, compact and opening: every position in the index file is where that entry lies in the data file, nothing is left ' \
          'over behind them, the count, the start and the file that holds it agree, and the entries in memory are the last ones; what was written was flushed and ' \
          'its failure is seen; a compaction that gives up has put everything back'
    FNS = ('append', 'write_at', 'apply_pack', 'compact')
    must_see = ('files', 'memory', 'checked', 'push', 'restored')
    vital = ('files', 'memory')
    cost = 6

    @classmethod
    def entries(cls, prog, cb, ens):
        out = super().entries(prog, cb, ens)
        for f in prog.find(FS + '::fs_log_store'):
            if not f.get('params'):
                continue
            vals = tuple(('sym', 'arg_' + p['n']) for p in f['params'])
            for lit in ('empty', 'filled'):
                en = Entry('open/' + lit, f, THIS, vals, kind=('ctor',))
                en.lit = lit
                out.append(en)
        return out

    def prepare(self, eng, st, en):
        Store.prepare(self, eng, st, en)
        self.op = en.kind[1] if len(en.kind) > 1 else 'open'

    # ---- what the files hold
    def whole(self, eng, st, r):
        """(bytes kept, segments)"""
        f = self.file[r]
        v = real(segs(st, f) or ())
        if not v and fget(st, f, '#new') is None:
            return flen(eng, st, f), ()
        return fget(st, f, '#keep', C(0)), v

    def eighth(self, t):
        c, items = lin(t)
        if c % 8 or any(k % 8 for _, k in items):
            return None
        return mk(c // 8, {x: k // 8 for x, k in items})

    def layout(self, eng, st):
        """(entries in the files, None) or (None, what is wrong)"""
        f, g = st.facts, gen(st)
        ik, iseg = self.whole(eng, st, IDX)
        dk, dseg = self.whole(eng, st, DAT)
        for r in (IDX, DAT):
            fn = self.file[r]
            if self.whole(eng, st, r)[1] or fget(st, fn, '#new') is not None:
                if f.decide_eq(flen(eng, st, fn), fget(st, fn, '#end', C(0))) is not True:
                    return None, '%s holds %s bytes, of which %s are written' % (fn, show(flen(eng, st, fn)), show(fget(st, fn, '#end', C(0))))
        n = self.eighth(ik) or self.eighth(f.canon(ik))
        if n is None:
            return None, 'the index file keeps %s bytes' % show(ik)
        if not self.isoff(f, dk, g, n):
            return None, 'the data file keeps %s bytes for %s entries' % (show(dk), show(n))
        pos = dk
        if len(iseg) != len(dseg):
            return None, 'index and data file were not written alike (%d and %d pieces)' % (len(iseg), len(dseg))
        for a, b in zip(iseg, dseg):
            why = None
            if a[0] == 'val' and b[0] == 'enc':
                if f.decide_eq(a[1], pos) is not True:
                    why = 'the entry written at %s is said to lie at %s' % (show(pos), show(a[1]))
                pos, n = add(pos, nn(('app', 'encsize', b[1]))), add(n, C(1))
            elif b[0] == 'old' and self.roles.get(b[1]) == DAT:
                lo, hi = self.at(g, f.canon(b[2])), self.at(g, f.canon(b[3]))
                if lo is None or hi is None:
                    why = 'the data from %s to %s is not a run of entries' % (show(b[2]), show(b[3]))
                elif a[0] == 'old' and self.roles.get(a[1]) == IDX:
                    if f.decide_eq(pos, b[2]) is not True or f.decide_eq(a[2], scale(lo, 8)) is not True or f.decide_eq(a[3], scale(hi, 8)) is not True:
                        why = 'the positions kept are not those of the entries kept'
                    n = add(n, sub(hi, lo))
                elif a[0] == '*' and len(a[1]) == 1 and a[1][0][0] == 'val':
                    if f.decide_eq(a[1][0][1], add(pos, sub(off(g, f.canon(add(lo, K))), b[2]))) is not True:
                        why = 'positions are written as %s' % show(a[1][0][1])
                    n = add(n, sub(hi, lo))
                else:
                    why = 'no positions are written for the entries kept'
                pos = add(pos, sub(b[3], b[2]))
            elif b[0] == 'buf':
                _, p, at, l = b
                if a[0] == 'buf':
                    _, p1, at1, l1 = a
                    first = ('app', 'get.ulong', p, C(0), at1)
                    if p1 != p or f.decide_eq(add(at1, l1), at) is not True:
                        why = 'what is written as positions is not what precedes the data in the pack'
                    elif f.decide_eq(first, pos) is not True:
                        why = 'positions are taken as they are although the data may lie elsewhere here'
                elif a[0] == '*' and len(a[1]) == 1 and a[1][0][0] == 'val':
                    e8 = fget(st, self.file[IDX], '#end', C(0))
                    l1 = sub(e8, ik)
                    at1 = sub(at, l1)
                    first = ('app', 'get.ulong', p, C(0), at1)
                    each = [x for x in T.atoms_of(a[1][0][1]) if x[:2] == ('app', 'get.ulong') and x[2] == p and K in T.atoms_of(x)]
                    l1 = self.packlen(st, p, at, l)
                    if len(each) != 1 or l1 is None:
                        why = 'positions are written as %s' % show(a[1][0][1])
                    else:
                        at1 = T.subst(each[0][4], K, C(0))
                        first = ('app', 'get.ulong', p, C(0), at1)
                        if sub(each[0][4], at1) != scale(K, 8) or f.decide_eq(add(at1, l1), at) is not True:
                            why = 'the positions are not those before the data in the pack'
                        elif f.decide_eq(a[1][0][1], sub(add(each[0], pos), first)) is not True:
                            why = 'positions are written as %s' % show(a[1][0][1])
                else:
                    why = 'no positions are written for the pack'
                    l1 = C(0)
                if why is None and f.decide_eq(add(at, l), bsize(st, p)) is not True:
                    why = 'the pack is not written to its end'
                n = add(n, ('app', 'div', l1, C(8))) if l1 is not None else n
                pos = add(pos, l)
            else:
                why = 'what is written cannot be told: %s, %s' % (a[0], b[0])
            if why:
                return None, why
        return f.canon(n), None

    def isoff(self, f, t, g, i):
        if t[:3] == ('app', 'off', C(g)) and f.decide_eq(t[3], i) is True:
            return True
        return f.decide_eq(t, off(g, i)) is True or f.decide_eq(t, off(g, f.canon(i))) is True

    def packlen(self, st, p, at, l):
        """bytes of positions in a pack: the first number in it"""
        for x in self.lens:
            if x[2] == p:
                return x
        return None

    lens = ()

    def start_in_file(self, eng, st):
        k, v = self.whole(eng, st, STI)
        if not v:
            return self.start0 if fget(st, self.file[STI], '#new') is None else None
        if k != C(0) or len(v) != 1:
            return None
        if v[0][0] == 'val':
            return v[0][1]
        if v[0] == ('old', self.file[STI], C(0), C(8)):
            return self.start0
        return None

    def rebase(self, eng, st, e):
        """what has been written is read again"""
        for l in self.lens:
            # whole positions
            x = ('app', 'div', l, C(8))
            if st.facts.decide_eq(('app', '%', l, C(8)), C(0)) is True:
                c = nn(('fld', ('sym', 'positions'), 'n'))
                f = st.facts.add_eq(x, c)
                f = f and f.add_eq(l, scale(c, 8))
                st.facts = f or st.facts
        n, why = self.layout(eng, st)
        site = eng.site(e)
        self.ob('files', site)
        if why:
            if not self.mixed(st):
                self.bad(self.op + '/files', site, 'the files are read again although ' + why, st)
            return
        g = gen(st) + 1
        setsegs(st, '#gen', g)
        ik = self.whole(eng, st, IDX)[0]
        setsegs(st, '#kept', self.eighth(ik) or self.eighth(st.facts.canon(ik)))
        for r in (IDX, DAT):
            fn = self.file[r]
            setsegs(st, fn, ())
            s = dict(st.store)
            s.pop((('file', fn), '#new'), None)
            st.store = s
            l = scale(n, 8) if r == IDX else off(g, n)
            st.facts = st.facts.add_eq(l, flen(eng, st, fn)) or st.facts
            fset(st, fn, '#flen', l)
        setsegs(st, '#count', nn(n))

    def count_of(self, eng, st, g):
        return self.n0 if g == 0 else segs(st, '#count')

    def mixed(self, st):
        """some of the files were there and some were not"""
        if self.op != 'open':
            return False
        return len({fget(st, f, '#new') is None for f in self.roles}) > 1

    # ---- events
    def event(self, eng, st, ev):
        if st.ctl:
            return
        b = self.cur(eng, st, THIS, BUFP)
        if ev.kind == 'buf' and ev.name == 'get:int' and ev.args[0] == ('sym', 'arg_pack') and ev.args[1] not in self.lens:
            self.lens = self.lens + (ev.args[1],)
        if ev.kind == 'file' and ev.name == 'read' and not self.mixed(st):
            o, f, p, l = ev.args
            self.ob('read', ev.site)
            if not self.within(eng, st, f[1], add(p, l)):
                self.bad(self.op + '/past-end', ev.site, 'may read past the end of %s, which fails' % f[1], st)
        if ev.kind == 'file' and ev.name == 'truncate':
            for (o, k), v in st.store.items():
                if k == '#path' and v == ev.args[0] and st.store.get((o, '#dirty'), C(0)) != C(0):
                    self.bad(self.op + '/truncate', ev.site, '%s is cut while what was written to it is not yet flushed' % v[1], st)
        if ev.kind == 'cont' and ev.args and ev.args[0] == self.vec_of(eng, st):
            vec = ev.args[0]
            if ev.name == 'push':
                self.pushed(eng, st, ev)
                st.set((vec, '#first'), sub(self.cur(eng, st, b, 'start_idx_'), st.store.get((vec, '#shift'), C(0))))
            elif ev.name == 'clear':
                s = dict(st.store)
                s.pop((vec, '#shift'), None)
                s.pop((vec, '#first'), None)
                st.store = s
            elif ev.name == 'erase':
                its = ev.args[1:]
                if any(x[0] != 'it' for x in its):
                    return
                lo = its[0][3]
                hi = its[1][3] if len(its) > 1 else add(lo, C(1))
                n = eng.csize(st, vec)
                f = st.facts
                if f.decide_eq(hi, n) is True:
                    st.set((vec, '#first'), sub(self.cur(eng, st, b, 'start_idx_'), st.store.get((vec, '#shift'), C(0))))
                elif f.decide_eq(lo, C(0)) is True:
                    st.set((vec, '#shift'), add(st.store.get((vec, '#shift'), C(0)), hi))
                else:
                    self.bad(self.op + '/erase', ev.site, 'entries are taken out of the middle of those in memory', st)

    def vec_of(self, eng, st):
        b = self.cur(eng, st, THIS, BUFP)
        if b == self.b:
            return self.vec
        v = eng.peek(st, b, 'buf_', 'std::vector<std::shared_ptr<cornerstone::log_entry>>')
        return v if v is not None else ('sub', b, 'buf_')

    def pushed(self, eng, st, ev):
        vec, v, at = ev.args
        b = self.cur(eng, st, THIS, BUFP)
        f = st.facts
        self.ob('push', ev.site)
        here = add(self.cur(eng, st, b, 'start_idx_'), at)
        if v == self.entry():
            where = self.written(eng, st)
            if where is None:
                # not written yet
                where = self.en.vals[0] if self.op == 'write_at' else add(self.s0, self.n0)
        else:
            where = self.index_of(eng, st, v)
        if where is None or f.decide_eq(where, here) is not True:
            if not self.mixed(st):
                self.bad(self.op + '/memory', ev.site, 'the entry at %s is put in memory where the one at %s belongs' % (
                    show(where) if where is not None else '?', show(here)), st)

    def entry(self):
        for v, p in zip(self.en.vals, self.en.fn['params']):
            if 'log_entry' in p['t']:
                return v
        return None

    def written(self, eng, st):
        """index of the entry written"""
        k, v = self.whole(eng, st, DAT)
        ik, _ = self.whole(eng, st, IDX)
        if len(v) == 1 and v[0] == ('enc', self.entry()):
            i = self.eighth(st.facts.canon(ik))
            return add(i, self.s0) if i is not None else None
        return None

    def final(self, eng, st):
        if not st.ctl or st.ctl[0] != 'done' or self.mixed(st) or self.lost:
            return
        f, site = st.facts, self.endsite()
        b = self.cur(eng, st, THIS, BUFP)
        vec = self.vec_of(eng, st)
        N1, S1, bs, m = self.cur(eng, st, THIS, N), self.cur(eng, st, THIS, S), self.cur(eng, st, b, 'start_idx_'), eng.csize(st, vec)
        n, why = self.layout(eng, st)
        self.ob('files', site)
        op = self.op
        if why:
            self.bad(op + '/files', site, why, st)
            return
        if f.decide_eq(n, N1) is not True:
            self.bad(op + '/count', site, 'the files hold %s entries, the count says %s' % (show(n), show(N1)), st)
        s = self.start_in_file(eng, st)
        if s is None or f.decide_eq(s, S1) is not True:
            self.bad(op + '/start', site, 'the start is %s, its file says %s' % (show(S1), show(s) if s is not None else '?'), st)
        # memory
        self.ob('memory', site)
        first = st.store.get((vec, '#first'))
        if first is not None and f.decide_eq(add(first, st.store.get((vec, '#shift'), C(0))), bs) is not True:
            self.bad(op + '/tail', site, 'the first index in memory does not follow what was taken out', st)
        elif f.decide_eq(add(bs, m), add(S1, N1)) is not True:
            self.bad(op + '/tail', site, 'memory ends at %s, the log at %s' % (show(add(bs, m)), show(add(S1, N1))), st)
        elif f.decide_le(S1, bs) is not True:
            self.bad(op + '/tail', site, 'memory starts before the log', st)
        elif f.decide_le(C(1), m) is not True and f.decide_eq(N1, C(0)) is not True:
            self.bad(op + '/tail', site, 'the last entry may not be in memory', st)
        elif f.decide_le(m, self.cur(eng, st, b, 'max_size_')) is not True:
            self.bad(op + '/tail', site, 'more entries are in memory than allowed', st)
        # what was asked for
        a = self.en.vals
        if op == 'append':
            if f.decide_eq(n, add(self.n0, C(1))) is not True or f.decide_eq(S1, self.s0) is not True or self.written(eng, st) is None:
                self.bad(op + '/effect', site, 'one entry is not added at the end', st)
            elif f.decide_eq(st.ctl[1], add(self.s0, self.n0)) is not True:
                self.bad(op + '/index', site, 'returns %s' % show(st.ctl[1]), st)
        elif op == 'write_at':
            w = self.written(eng, st)
            if w is None or f.decide_eq(w, a[0]) is not True or f.decide_eq(S1, self.s0) is not True:
                self.bad(op + '/effect', site, 'the entry is written at %s' % (show(w) if w is not None else '?'), st)
            elif f.decide_le(self.s0, a[0]) is not True:
                self.bad(op + '/before', site, 'an index before the start is not refused', st)
            elif f.decide_le(a[0], add(self.s0, self.n0)) is not True:
                self.bad(op + '/hole', site, 'an index past the end is not refused', st)
        elif op == 'apply_pack':
            k = segs(st, '#kept') if gen(st) else self.eighth(self.whole(eng, st, IDX)[0])
            if k is None or f.decide_eq(k, sub(a[0], self.s0)) is not True or f.decide_eq(S1, self.s0) is not True:
                self.bad(op + '/effect', site, 'the pack is put at %s' % (show(add(k, self.s0)) if k is not None else '?'), st)
            elif f.decide_le(a[0], add(self.s0, self.n0)) is not True:
                self.bad(op + '/hole', site, 'an index past the end is not refused', st)
        elif op == 'compact':
            self.compacted(eng, st, n, S1, site)
        if op in ('append', 'write_at', 'apply_pack'):
            self.checked(eng, st, site)
        for m_ in MEMBERS:
            o = ('sub', THIS, m_)
            for (oo, k), v in st.store.items():
                if k == '#dirty' and oo[0] in ('sub', 'fld') and oo[1] == THIS and oo[2] == m_ and v != C(0):
                    self.bad(op + '/flush', site, 'what was written through %s may still be in its buffer' % m_, st)

    def checked(self, eng, st, site):
        self.ob('checked', site)
        for (o, k), v in st.store.items():
            if k == '#chk' and o[0] in ('sub', 'fld') and o[1] == THIS and o[2] in MEMBERS and v == C(0):
                self.bad(self.op + '/failure', site, 'a failure to write through %s may go unnoticed' % o[2], st)

    def compacted(self, eng, st, n, S1, site):
        f, last, v = st.facts, self.en.vals[0], st.ctl[1]
        nxt = add(self.s0, self.n0)
        if v == C(0):
            self.ob('restored', site)
            if f.decide_eq(n, self.n0) is not True or f.decide_eq(S1, self.s0) is not True or f.decide_eq(self.cur(eng, st, THIS, N), self.n0) is not True:
                self.bad('compact/restore', site, 'a compaction that gives up leaves %s entries from %s' % (show(n), show(S1)), st)
            return
        if f.decide_le(self.s0, last) is not True:
            self.bad('compact/before', site, 'an index before the start is not refused', st)
        elif f.decide_eq(S1, add(last, C(1))) is not True:
            self.bad('compact/effect', site, 'the log starts at %s after compaction to %s' % (show(S1), show(last)), st)
        elif f.decide_le(nxt, S1) is True:
            if f.decide_eq(n, C(0)) is not True:
                self.bad('compact/effect', site, 'entries up to the last index are kept', st)
        elif f.decide_le(S1, nxt) is not True:
            fa = f.add_le(add(S1, C(1)), nxt)
            if fa is not None and fa.decide_eq(add(S1, n), nxt) is not True:
                self.bad('compact/effect', site, 'entries after the last index may be dropped', st)
        elif f.decide_eq(add(S1, n), nxt) is not True:
            self.bad('compact/effect', site, '%s entries are kept from %s on' % (show(n), show(S1)), st)


RULES = [Reads, Writes]
