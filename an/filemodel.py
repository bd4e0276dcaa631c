"""Files as sequences of bytes with known origin, and streams with a position on them.

A file keeps the first #keep bytes of what it held at the start, followed by the segments written since (kept in the rule's
state), #end is where those end and #flen the length of the file.  Everything past #end is left over from before."""
from .terms import *
from .engine import NNSET, strip
from .bufmodel import BUF, buf_model, bsize, bpos, new_buf, WIDTH
from .models import CODEC, NS

IDX, DAT, STI = 'idx', 'dat', 'sti'
LE = NS + 'log_entry'
MARK = '['
K = ('sym', 'idx')


def nn(t):
    NNSET.add(t)
    return t


def off(g, i):
    return nn(('app', 'off', C(g), i))


# ---- the segments, kept in st.meta as ((file, segments), ...)
def segs(st, f):
    for k, v in st.meta:
        if k == f:
            return v
    return None


def setsegs(st, f, v):
    d = dict(st.meta)
    d[f] = v
    st.meta = tuple(sorted(d.items(), key=repr))


def gen(st):
    return segs(st, '#gen') or 0


def real(v):
    return tuple(x for x in v if x[0] != MARK) if v is not None else None


def fname(t):
    """which file a path names: the literal it ends in"""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'str' and isinstance(x[1], str):
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
    walk(t)
    for s in out:
        if '.' in s:
            return s
    return None


def flen(eng, st, f):
    v = st.store.get((('file', f), '#flen'))
    if v is None:
        v = nn(('app', 'filelen', ('str', f)))
    return v


def fget(st, f, k, d=None):
    return st.store.get((('file', f), k), d)


def fset(st, f, k, v):
    st.set((('file', f), k), v)


class Files:
    """mixin of a rule: the model of streams and the files they are open on"""

    def path_of(self, st, o):
        v = st.store.get((o, '#path'))
        if v is not None:
            return v[1]
        if o[0] in ('fld', 'sub') and o[1][0] == 'this':
            return self.member_files.get(o[2])
        return None

    def is_stream(self, q):
        return q.startswith('std::basic_') and 'stream<' in q or q.startswith('std::basic_ios<')

    def model(self, eng, what, e, st, obj, args, **kw):
        if what == 'call':
            return self.call(eng, e, st, obj, args)
        if what != 'ext':
            return None
        q, name = e.get('q', ''), e.get('name', '')
        vals = [eng.val(st, a) for a in args]
        if q.startswith('std::fpos<') and obj is not None:
            return [(st, eng.val(st, obj))]
        if q == 'std::operator|' and len(vals) == 2 and vals[0][0] == vals[1][0] == 'c':
            return [(st, C(vals[0][1] | vals[1][1]))]
        if name in ('truncate64', 'truncate', 'ftruncate') and len(vals) == 2:
            f = fname(vals[0])
            eng.emit(st, 'file', 'truncate', (('str', f or '?'), vals[1]), e)
            bad = st.copy()
            if f:
                fset(st, f, '#flen', vals[1])
                fset(st, f, '#cut', vals[1])
                for (o, k), v in list(st.store.items()):
                    if k == '#path' and v == ('str', f):
                        # the length comes from a position, which a stream that failed does not give
                        st.set((o, '#chk'), C(1))
            return [(st, C(0)), (bad, C(-1))]
        if q in ('remove', 'std::remove', 'unlink') and len(vals) == 1:
            f = fname(vals[0])
            eng.emit(st, 'file', 'remove', (('str', f or '?'),), e)
            if f:
                self.empty(st, f)
            bad = st.copy()
            return [(st, C(0)), (bad, C(-1))]
        if q in ('rename', 'std::rename') and len(vals) == 2:
            eng.emit(st, 'file', 'rename', (('str', fname(vals[0]) or '?'), ('str', fname(vals[1]) or '?')), e)
            self.lost = True
            return None
        if not self.is_stream(q):
            return None
        o = obj
        if o is None:
            return None
        o = eng.val(st, o)
        f = self.path_of(st, o)
        if name == 'open':
            f = fname(vals[0])
            mode = vals[1] if len(vals) > 1 else C(24)
            if f is None:
                return None
            st.set((o, '#path'), ('str', f))
            self.unsure(st, o)
            st.set((o, '#dirty'), C(0))
            if mode[0] == 'c' and (mode[1] & 16) and not (mode[1] & 9):
                self.empty(st, f)
            st.set((o, '#fpos'), flen(eng, st, f) if mode[0] == 'c' and mode[1] & 2 else C(0))
            self.sought(eng, st, o, f)
            eng.emit(st, 'file', 'open', (o, ('str', f), mode), e)
            return [(st, C(0))]
        if f is None:
            return None
        if name in ('operator!', 'fail', 'operator bool', 'good', 'bad', 'eof', 'is_open'):
            if name in ('eof', 'is_open'):
                return None
            neg = name in ('operator!', 'fail', 'bad')
            k = st.store.get((o, '#ok'))
            if k is not None and k[0] == 'c':
                if k == C(1):
                    st.set((o, '#chk'), C(1))
                return [(st, C(int((k[1] == 0) == neg)))]
            bad = st.copy()
            st.set((o, '#ok'), C(1))
            st.set((o, '#chk'), C(1))
            bad.set((o, '#ok'), C(0))
            return [(st, C(0 if neg else 1)), (bad, C(1 if neg else 0))]
        if name == 'rdbuf':
            return [(st, ('app', 'rdbuf', o))]
        if name in ('seekg', 'seekp'):
            if len(vals) > 1 and vals[1] == C(2):
                p = add(flen(eng, st, f), vals[0])
            elif len(vals) > 1 and vals[1] == C(1):
                p = add(self.fpos(st, o), vals[0])
            else:
                p = vals[0]
            st.set((o, '#fpos'), p)
            self.flushed(st, o)
            self.sought(eng, st, o, f)
            eng.emit(st, 'file', 'seek', (o, ('str', f), p), e)
            return [(st, o)]
        if name in ('tellg', 'tellp'):
            return [(st, self.fpos(st, o))]
        if name == 'flush':
            eng.emit(st, 'file', 'flush', (o, ('str', f)), e)
            self.flushed(st, o)
            return [(st, o)]
        if name == 'close':
            eng.emit(st, 'file', 'close', (o, ('str', f)), e)
            self.flushed(st, o)
            return [(st, C(0))]
        if name == 'clear':
            st.set((o, '#ok'), C(1))
            return [(st, C(0))]
        if name == 'read':
            return self.read(eng, st, o, f, vals, e)
        if name == 'write':
            return self.write(eng, st, o, f, self.source(eng, st, vals[0], vals[1]), vals[1], e)
        if name == 'operator<<' and vals and vals[0][:2] == ('app', 'rdbuf'):
            return self.copy(eng, st, o, f, vals[0][2], e)
        return None

    # ---- positions
    def fpos(self, st, o):
        v = st.store.get((o, '#fpos'))
        return v if v is not None else nn(('app', 'fpos', o))

    def unsure(self, st, o):
        s = dict(st.store)
        s.pop((o, '#ok'), None)
        st.store = s

    def flushed(self, st, o):
        if st.store.get((o, '#dirty'), C(0)) != C(0):
            self.unsure(st, o)
            st.set((o, '#chk'), C(0))
        st.set((o, '#dirty'), C(0))

    def sought(self, eng, st, o, f):
        if segs(st, f) is None or not real(segs(st, f)) and not fget(st, f, '#new'):
            fset(st, f, '#keep', self.fpos(st, o))
            fset(st, f, '#end', self.fpos(st, o))

    def empty(self, st, f):
        setsegs(st, f, tuple(x for x in segs(st, f) or () if x[0] == MARK))
        fset(st, f, '#new', C(1))
        fset(st, f, '#keep', C(0))
        fset(st, f, '#end', C(0))
        fset(st, f, '#flen', C(0))
        fset(st, f, '#cut', C(0))

    # ---- contents
    def origin(self, st, f, p):
        """(file of the start, offset) of what lies at offset p of f; None: not known"""
        v = real(segs(st, f) or ())
        if not v and not fget(st, f, '#new'):
            return f, p
        if v and len(v) == 1 and v[0][0] == 'old' and fget(st, f, '#keep') == C(0):
            return v[0][1], add(p, v[0][2])
        return None

    def read(self, eng, st, o, f, vals, e):
        a, n = vals[0], vals[1]
        p = self.fpos(st, o)
        if self.role(f) and self.origin(st, f, p) is None:
            self.rebase(eng, st, e)
        src = self.origin(st, f, p)
        eng.emit(st, 'file', 'read', (o, ('str', f), p, n), e)
        b = a[2] if a[:2] == ('app', 'data') else None
        if b is not None:
            st.set((b, '#fc'), ('fc', src[0], src[1], n, gen(st)) if src and a[3] == C(0) else ('fc', '?', p, n, 0))
            s = dict(st.store)
            s.pop((b, '#put'), None)
            st.store = s
        st.set((o, '#fpos'), add(p, n))
        self.sought(eng, st, o, f)
        self.unsure(st, o)
        if not self.within(eng, st, f, add(p, n)):
            fa = st.facts.add_le(add(p, n), flen(eng, st, f))
            if fa is None:
                st.set((o, '#ok'), C(0))
            else:
                bad = st.copy()
                bad.set((o, '#ok'), C(0))
                st.facts = fa
                return [(st, o), (bad, o)]
        return [(st, o)]

    def within(self, eng, st, f, p):
        return st.facts.decide_le(p, flen(eng, st, f)) is True

    def source(self, eng, st, a, n):
        """the segment written when n bytes are taken from address a"""
        if a[0] == 'addr' and a[1][0] == 'L' and n == C(8):
            v = st.frames[a[1][1]].get(a[1][2]) if a[1][1] < len(st.frames) else None
            return ('val', v) if v is not None else ('bytes', n)
        c, items = lin(a)
        for x, k in items:
            if k == 1 and x[:2] == ('app', 'data'):
                b, at = x[2], add(x[3], sub(a, x))
                enc, put, fc = st.store.get((b, '#enc')), st.store.get((b, '#put')), st.store.get((b, '#fc'))
                whole = at == C(0) and st.facts.decide_eq(n, bsize(st, b)) is True
                if enc is not None:
                    return ('enc', enc[2]) if whole else ('bytes', n)
                if put is not None:
                    return ('val', put[1]) if at == C(0) and n == C(8) else ('bytes', n)
                if fc is not None:
                    return ('old', fc[1], add(fc[2], at), add(add(fc[2], at), n)) if fc[1] != '?' else ('bytes', n)
                return ('buf', b, at, n)
        return ('bytes', n)

    def write(self, eng, st, o, f, seg, n, e):
        p = self.fpos(st, o)
        v = segs(st, f) or ()
        eng.emit(st, 'file', 'write', (o, ('str', f), p, n), e)
        if st.facts.decide_eq(p, fget(st, f, '#end', C(-1))) is not True:
            seg = ('mess', p)
        end = add(p, n)
        if not (eng.quiet and v and v[-1] == seg):
            setsegs(st, f, v + (seg,))
        fset(st, f, '#end', end)
        st.set((o, '#fpos'), end)
        st.set((o, '#dirty'), C(1))
        st.set((o, '#chk'), C(0))
        self.unsure(st, o)
        l = flen(eng, st, f)
        d = st.facts.decide_le(l, end)
        out = []
        if d is not False:
            s = st.copy()
            fa = s.facts.add_le(l, end)
            if fa is not None:
                s.facts = fa
                fset(s, f, '#flen', end)
                out.append((s, o))
        if d is not True:
            s = st.copy()
            fa = s.facts.add_le(add(end, C(1)), l)
            if fa is not None:
                s.facts = fa
                fset(s, f, '#flen', l)
                out.append((s, o))
        return out or [(st, o)]

    def copy(self, eng, st, o, f, so, e):
        sf = self.path_of(st, so)
        if sf is None:
            return None
        p, l = self.fpos(st, so), flen(eng, st, sf)
        src = self.origin(st, sf, p)
        st.set((so, '#fpos'), l)
        n = sub(l, p)
        return self.write(eng, st, o, f, ('old', src[0], src[1], add(src[1], n)) if src else ('bytes', n), n, e)

    def number(self, st, fc, at):
        """the number a buffer filled from a file holds at offset at"""
        _, f, p, n, g = fc
        r = self.role(f)
        q = add(p, at)
        if r == IDX:
            c, items = lin(q)
            if c % 8 == 0 and all(k % 8 == 0 for _, k in items):
                return off(g, mk(c // 8, {x: k // 8 for x, k in items}))
        elif r == DAT:
            if q == C(0):
                return nn(('app', 'termof', C(g), C(0)))
            if q[:2] == ('app', 'off'):
                return nn(('app', 'termof', q[2], q[3]))
        elif r == STI and q == C(0):
            return self.start0
        return None

    def call(self, eng, e, st, obj, args):
        cls, name = e.get('cls', ''), e['name']
        if cls == LE and name == 'serialize':
            b = new_buf(eng, st, nn(('app', 'encsize', obj)))
            st.set((b, '#enc'), ('enc', cls, obj))
            return [(st, b)]
        if cls == LE and name == 'deserialize':
            b = eng.val(st, args[0])
            eng.tick(st)
            v = ('new', LE, st.n)
            fc = st.store.get((b, '#fc'))
            if fc is not None and bpos(st, b) == C(0):
                st.set((v, '#from'), ('from',) + fc[1:])
            st.set((b, '#pos'), bsize(st, b))
            return [(st, v)]
        if cls != BUF:
            return None
        if name == 'get_ulong':
            fc = st.store.get((obj, '#fc'))
            p = bpos(st, obj)
            r = buf_model(eng, 'call', e, st, obj, args)
            v = self.number(st, fc, p) if fc is not None else None
            put = st.store.get((obj, '#put'))
            if v is None and put is not None and p == C(0):
                v = put[1]
            return [(s, v if v is not None and x is not None else x) for s, x in r]
        if name == 'put':
            p = bpos(st, obj)
            vals = [eng.val(st, a) for a in args]
            r = buf_model(eng, 'call', e, st, obj, args)
            for s, x in r:
                if s.ctl:
                    continue
                d = dict(s.store)
                isbuf = BUF in ''.join(e.get('pt', []))
                part = d.get((vals[0], '#fc'), ('?',)) if isbuf else ('val', vals[0])
                d[(obj, '#parts')] = d.get((obj, '#parts'), ('parts',)) + ((p, part),)
                d.pop((obj, '#fc'), None)
                d.pop((obj, '#enc'), None)
                if p == C(0) and bsize(s, obj) == C(8) and not isbuf:
                    d[(obj, '#put')] = ('val', vals[0])
                else:
                    d.pop((obj, '#put'), None)
                s.store = d
            return r
        return None

    # ---- loops
    def loop_in(self, eng, st, k):
        for f, v in st.meta:
            if isinstance(f, str) and not f.startswith('#'):
                setsegs(st, f, (v or ()) + ((MARK, k),))

    def iter_end(self, eng, st, k):
        for f, v in st.meta:
            if not isinstance(f, str) or f.startswith('#') or not v or (MARK, k) not in v:
                continue
            i = len(v) - 1 - v[::-1].index((MARK, k))
            base, inner = v[:i], subst(tuple(x for x in v[i + 1:] if x[0] != MARK), k, K)
            if not inner or base and base[-1] == ('*', inner):
                setsegs(st, f, base)
            else:
                setsegs(st, f, base + (('*', inner),))

    # ---- to be provided
    def role(self, f):
        return self.roles.get(f)

    def rebase(self, eng, st, e):
        pass
