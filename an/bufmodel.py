"""Buffers as objects with a size and a position (what src/buffer.cxx provides, see C19), and the part of asio the RPC layer uses."""
from .terms import *
from .engine import NNSET, strip
from .models import NS

BUF = NS + 'buffer'
WIDTH = {'byte': 1, 'int': 4, 'ulong': 8}
MAXBUF = 0x7fffffff


def kind_of(t):
    t = strip(t)
    if 'basic_string' in t or t.startswith('std::string'):
        return 'str'
    if BUF in t or t == 'buffer':
        return 'buf'
    if t in ('unsigned char', 'byte', 'char', 'bool', 'signed char'):
        return 'byte'
    if t in ('int', 'int32', 'unsigned int', 'int32_t'):
        return 'int'
    return 'ulong'


def bsize(st, b):
    v = st.store.get((b, '#size'))
    if v is None:
        v = ('app', 'bufsize', b)
        NNSET.add(v)
        f = st.facts.add_le(v, C(MAXBUF))
        st.facts = f or st.facts
    return v


def bpos(st, b):
    v = st.store.get((b, '#pos'))
    if v is None:
        v = ('app', 'bufpos', b)
        NNSET.add(v)
    f = st.facts.add_le(v, bsize(st, b))
    f = f and f.add_le(C(0), v)
    st.facts = f or st.facts
    return v


def bver(st, b):
    return st.store.get((b, '#bv'), C(0))


def advance(eng, st, b, w):
    p = bpos(st, b)
    st.set((b, '#pos'), add(p, w))
    bpos(st, b)


def room(eng, st, b, w, e):
    """-> (state where w more bytes fit or None, state where they do not or None)"""
    p, s = bpos(st, b), bsize(st, b)
    d = st.facts.decide_le(add(p, w), s)
    ok = bad = None
    if d is not False:
        ok = st.copy()
        f = ok.facts.add_le(add(p, w), s)
        if f is None:
            ok = None
        else:
            ok.facts = f
    if d is not True:
        bad = st.copy()
        f = bad.facts.add_le(add(s, C(1)), add(p, w))
        if f is None:
            bad = None
        else:
            bad.facts = f
            eng.emit(bad, 'throw', 'std::overflow_error', (b,), e)
            bad.ctl = ('exc', 'std::overflow_error')
    return ok, bad


def new_buf(eng, st, size):
    eng.tick(st)
    v = ('new', BUF, st.n)
    st.set((v, '#size'), size)
    st.set((v, '#pos'), C(0))
    return v


def slen(v):
    t = ('app', 'length', v)
    NNSET.add(t)
    return t


def buf_model(eng, what, e, st, obj, args, **kw):
    if what == 'ext':
        return asio_model(eng, e, st, obj, args, **kw)
    if what != 'call' or e.get('cls', '') != BUF:
        return None
    name = e['name']
    vals = [eng.val(st, a) for a in args]
    pts = e.get('pt', [])
    if name == 'alloc':
        out = []
        ok = st.copy()
        f = ok.facts.add_le(vals[0], C(MAXBUF))
        if f is not None:
            ok.facts = f
            v = new_buf(eng, ok, vals[0])
            eng.emit(ok, 'buf', 'alloc', (v, vals[0]), e)
            out.append((ok, v))
        if st.facts.decide_le(C(0), vals[0]) is not True:
            # a negative number is far too large a size
            bad = st.copy()
            f = bad.facts.add_le(vals[0], C(-1))
            if f is not None:
                bad.facts = f
                eng.emit(bad, 'throw', 'std::out_of_range', (), e)
                bad.ctl = ('exc', 'std::out_of_range')
                out.append((bad, None))
            f = out and ok.facts.add_le(C(0), vals[0])
            if f:
                ok.facts = f
        if not out:
            st.ctl = ('exc', 'std::out_of_range')
            return [(st, None)]
        return out
    if name == 'copy':
        src = vals[0]
        v = new_buf(eng, st, sub(bsize(st, src), bpos(st, src)))
        st.set((v, '#of'), ('copy', src, bver(st, src), bpos(st, src)))
        eng.emit(st, 'buf', 'rest', (src, v, bpos(st, src)), e)
        return [(st, v)]
    if name == 'size':
        return [(st, bsize(st, obj))]
    if name == 'data':
        return [(st, ('app', 'data', obj, bpos(st, obj)))]
    if name == 'pos' and not vals:
        return [(st, bpos(st, obj))]
    if name == 'pos':
        out = []
        s = bsize(st, obj)
        d = st.facts.decide_le(vals[0], s)
        if d is not False:
            ok = st.copy()
            f = ok.facts.add_le(vals[0], s)
            if f is not None:
                ok.facts = f
                ok.set((obj, '#pos'), vals[0])
                eng.emit(ok, 'buf', 'seek', (obj, vals[0]), e)
                out.append((ok, C(0)))
        if d is not True:
            bad = st.copy()
            f = bad.facts.add_le(add(s, C(1)), vals[0])
            if f is not None:
                bad.facts = f
                bad.set((obj, '#pos'), s)
                eng.emit(bad, 'buf', 'seek', (obj, s), e)
                out.append((bad, C(0)))
        return out
    if name == 'get_str':
        p = bpos(st, obj)
        ok = st.copy()
        v = ('app', 'get.str', obj, bver(st, obj), p)
        p2 = add(add(p, slen(v)), C(1))
        f = ok.facts.add_le(p2, bsize(st, obj))
        f = f and f.add_ne(v, NULL)
        out = []
        if f is not None:
            ok.facts = f
            ok.set((obj, '#pos'), p2)
            eng.emit(ok, 'buf', 'get:str', (obj, v, p), e)
            out.append((ok, v))
        out.append((st, NULL))
        return out
    if name.startswith('get'):
        if name == 'get':
            d = vals[0]
            w, k = sub(bsize(st, d), bpos(st, d)), 'buf'
        else:
            k = {'get_byte': 'byte', 'get_int': 'int', 'get_ulong': 'ulong'}[name]
            w = C(WIDTH[k])
        p = bpos(st, obj)
        ok, bad = room(eng, st, obj, w, e)
        out = []
        if ok is not None:
            if k == 'buf':
                v = d
                ok.set((d, '#of'), ('slice', obj, bver(st, obj), p))
                ok.set((d, '#bv'), ('of', obj, bver(st, obj), p))
            else:
                v = ('app', 'get.' + k, obj, bver(st, obj), p)
                if k != 'int':
                    NNSET.add(v)
                if k == 'byte':
                    f = ok.facts.add_le(v, C(255))
                    ok.facts = f or ok.facts
                elif k == 'int':
                    f = ok.facts.add_le(v, C(0x7fffffff))
                    ok.facts = f or ok.facts
            eng.emit(ok, 'buf', 'get:' + k, (obj, v, p, w), e)
            advance(eng, ok, obj, w)
            out.append((ok, v if k != 'buf' else C(0)))
        if bad is not None:
            out.append((bad, None))
        return out
    if name == 'put':
        k = kind_of(pts[0]) if pts else 'ulong'
        if k == 'str':
            w = add(slen(vals[0]), C(1))
        elif k == 'buf':
            w = sub(bsize(st, vals[0]), bpos(st, vals[0]))
        else:
            w = C(WIDTH[k])
        p = bpos(st, obj)
        ok, bad = room(eng, st, obj, w, e)
        out = []
        if ok is not None:
            eng.emit(ok, 'buf', 'put:' + k, (obj, vals[0], p, w), e)
            advance(eng, ok, obj, w)
            eng.tick(ok)
            ok.set((obj, '#bv'), ('ver', ok.n))
            out.append((ok, C(0)))
        if bad is not None:
            out.append((bad, None))
        return out
    return None


def buf_default(k):
    if len(k) == 2 and k[1] == '#open':
        v = ('fld', k[0], '#open')
        NNSET.add(v)
        return v
    if len(k) == 2 and k[1] in ('#size', '#pos'):
        v = ('app', 'buf' + k[1][1:], k[0])
        NNSET.add(v)
        return v
    if len(k) == 2 and k[1] == '#bv':
        return C(0)
    return None


buf_model.default = buf_default


def asio_model(eng, e, st, obj, args, **kw):
    q, name = e.get('q', ''), e.get('name', '')
    if q == 'asio::buffer':
        vals = [eng.val(st, a) for a in args]
        eng.emit(st, 'ext', q, tuple(vals), e)
        return [(st, ('app', 'asiobuf') + tuple(vals[:2]))]
    if q.startswith('asio::basic_socket<') and obj is not None:
        vals = [eng.val(st, a) for a in args]
        if name == 'is_open':
            v = st.store.get((obj, '#open'))
            if v is None:
                v = buf_default((obj, '#open'))
            return [(st, v)]
        if name == 'close':
            eng.emit(st, 'ext', q, (obj,) + tuple(vals), e)
            st.set((obj, '#open'), C(0))
            return [(st, C(0))]
    return None
