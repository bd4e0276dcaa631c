"""Value-numbered terms and the fact domain of the analysis.

A term is a tuple.  Integers, booleans, enumerators and pointers share one
representation: a linear form over opaque atoms (null is 0, true is 1), so
`x`, `x + 0` and `1 + x - 1` are the same term however they are written.
Facts are linear literals (=, !=, <=) that hold on a path; entailment is a
bounded sum of at most three facts, there is no solver.
"""
from functools import lru_cache
from math import gcd

NULL = ('c', 0)
TRUE = ('c', 1)
FALSE = ('c', 0)


def C(n):
    return ('c', n)


@lru_cache(maxsize=None)
def okey(t):
    return repr(t)


def lin(t):
    k = t[0]
    if k == 'c':
        return t[1], ()
    if k == 'lin':
        return t[1], t[2]
    return 0, ((t, 1),)


def mk(c, d):
    items = [(a, n) for a, n in d.items() if n]
    if not items:
        return ('c', c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: okey(x[0]))
    return ('lin', c, tuple(items))


def add(a, b, k=1):
    ca, ia = lin(a)
    cb, ib = lin(b)
    if not ib:
        if not ia:
            return ('c', ca + k * cb)
        if not k * cb:
            return a
    d = dict(ia)
    for x, n in ib:
        d[x] = d.get(x, 0) + k * n
    return mk(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, i = lin(a)
    return mk(c * k, {x: n * k for x, n in i})


def mul(a, b):
    if a[0] == 'c':
        return scale(b, a[1])
    if b[0] == 'c':
        return scale(a, b[1])
    x, y = sorted((a, b), key=okey)
    return ('app', 'mul', x, y)


def is_term(x):
    return isinstance(x, tuple) and len(x) > 0 and isinstance(x[0], str)


def atoms_of(t, out=None):
    """all sub-terms"""
    if out is None:
        out = set()
    if t in out:
        return out
    out.add(t)
    if t[0] == 'lin':
        for a, _ in t[2]:
            atoms_of(a, out)
    else:
        for x in t[1:]:
            if is_term(x):
                atoms_of(x, out)
            elif isinstance(x, tuple):
                for y in x:
                    if is_term(y):
                        atoms_of(y, out)
    return out


def contains(t, a):
    return a in atoms_of(t)


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'lin':
        out = ('c', t[1])
        for x, n in t[2]:
            out = add(out, subst(x, a, b), n)
        return out
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if depth > 6:
        return '..'
    if k == 'c':
        return str(t[1])
    if k == 'lin':
        s = []
        for a, n in t[2]:
            sa = show(a, depth + 1)
            s.append(('+' if n > 0 else '-') + ('' if abs(n) == 1 else '%d*' % abs(n)) + sa)
        r = ''.join(s)
        if r.startswith('+'):
            r = r[1:]
        if t[1]:
            r += '%+d' % t[1]
        return r
    if k == 'fld':
        return show(t[1], depth + 1) + '.' + str(t[2])
    if k == 'sub':
        return show(t[1], depth + 1) + '.' + str(t[2])
    if k == 'app':
        return t[1] + '(' + ','.join(show(x, depth + 1) for x in t[2:]) + ')'
    if k == 'this':
        return 'this'
    if k == 'new':
        return 'new<%s>#%s' % (t[1].split('::')[-1], t[2])
    if k == 'sym':
        return '%s' % (t[1],) + ('#%s' % t[2] if len(t) > 2 else '')
    if k == 'it':
        return 'it(%s,%s)' % (show(t[1], depth + 1), show(t[3], depth + 1))
    if k == 'lam':
        return 'lambda@' + str(t[1])[-40:]
    return str(k) + '(' + ','.join(show(x, depth + 1) for x in t[1:]) + ')'


NONNEG = {'size', 'count', 'bufsize', 'bufpos', 'strlen', 'filelen'}


def nonneg(a):
    if a[0] == 'app' and a[1] in NONNEG:
        return True
    if a[0] == 'sym' and len(a) > 1 and isinstance(a[1], str) and a[1].startswith('k@'):
        return True
    if a[0] == 'sym' and len(a) > 3 and a[3] == 'u':
        return True
    if a[0] == 'fld' and len(a) > 3 and a[3] == 'u':
        return True
    return False


def norm_eq(t):
    """canonical sign for an =0 / !=0 linear form"""
    c, i = lin(t)
    if i and i[0][1] < 0:
        t = scale(t, -1)
        c, i = lin(t)
    g = 0
    for _, k in i:
        g = gcd(g, k)
    if g > 1 and c % g == 0:
        return mk(c // g, {a: k // g for a, k in i})
    return t


NOORD = ('new', 'this', 'sub', 'lam', 'str', 'addr', 'it', 'ref', 'pair')


def tight(d):
    """d <= 0 over the integers, divided by what the coefficients have in common"""
    c, items = lin(d)
    g = 0
    for _, k in items:
        g = gcd(g, k)
    return mk(-((-c) // g), {a: k // g for a, k in items}) if g > 1 else d


class Facts:
    __slots__ = ('sb', 'le', 'ne', '_cache', '_key')

    def __init__(self, sb=None, le=frozenset(), ne=frozenset()):
        self.sb = sb or {}
        self.le = le
        self.ne = ne
        self._cache = {}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.sb.items()), self.le, self.ne)
        return self._key

    # -- canonical form under known equalities
    def canon(self, t):
        if not self.sb:
            return t
        r = self._cache.get(t)
        if r is not None:
            return r
        r = self._canon(t)
        self._cache[t] = r
        return r

    def _canon(self, t):
        k = t[0]
        if k == 'c':
            return t
        if k == 'lin':
            out = ('c', t[1])
            for a, n in t[2]:
                out = add(out, self.canon(a), n)
            return out
        s = self.sb.get(t)
        if s is not None:
            return self.canon(s) if s != t else s
        ch = False
        n = []
        for x in t:
            if is_term(x):
                y = self.canon(x)
                if y != x:
                    ch = True
                n.append(y)
            else:
                n.append(x)
        if ch:
            t2 = tuple(n)
            if t2[:2] == ('app', 'div') and t2[3][0] == 'c' and t2[3][1] > 0:
                c, i = lin(t2[2])
                if all(m % t2[3][1] == 0 for m in [c] + [m for _, m in i]):
                    return mk(c // t2[3][1], {a: m // t2[3][1] for a, m in i})
            s = self.sb.get(t2)
            return s if s is not None else t2
        return t

    # -- decisions
    def decide_eq(self, a, b):
        d = norm_eq(self.canon(sub(a, b)))
        if d[0] == 'c':
            return d[1] == 0
        # distinct allocations
        c, i = lin(d)
        if d in self.ne:
            return False
        if c == 0 and len(i) == 2 and i[0][1] == 1 and i[1][1] == -1:
            x, y = i[0][0], i[1][0]
            if distinct(x, y):
                return False
        if len(i) == 1 and abs(i[0][1]) == 1:
            x = i[0][0]
            if c == 0 and nonnull(x):
                return False
        le = self.entails_le(d)
        ge = self.entails_le(scale(d, -1))
        if le and ge:
            return True
        if self.entails_le(add(d, C(1))) or self.entails_le(add(scale(d, -1), C(1))):
            return False
        return None

    def decide_le(self, a, b):
        """a <= b ?"""
        d = self.canon(sub(a, b))
        if self.entails_le(d):
            return True
        # not (d<=0)  <=> d>=1 <=> 1-d<=0
        if self.entails_le(add(scale(d, -1), C(1))):
            return False
        return None

    def entails_le(self, d, depth=3):
        d = tight(d)
        if d[0] == 'c':
            return d[1] <= 0
        if d in self.le:
            return True
        return self._ent(d, depth, ())

    def _ent(self, d, depth, used):
        c, items = lin(d)
        if not items:
            return c <= 0
        # d <= 0 follows if d - f <= 0 for a fact f <= 0
        dm = dict(items)
        # drop non-negative atoms with negative coefficient
        rest = {a: n for a, n in items if not (n < 0 and nonneg(a))}
        if len(rest) < len(dm):
            if self._ent(mk(c, rest), depth, used):
                return True
        if depth == 0:
            return False
        for f in self.le:
            if f in used:
                continue
            cf, fi = lin(f)
            # f must cancel at least one atom of d
            ms = None
            for a, n in fi:
                m = dm.get(a)
                if m is not None and (m > 0) == (n > 0):
                    ms = ms or set()
                    ms.add(m // n if m % n == 0 else 1)
            if ms is None:
                continue
            for m in ms:
                r = sub(d, scale(f, m)) if m != 1 else sub(d, f)
                cr, ri = lin(r)
                if not ri:
                    if cr <= 0:
                        return True
                    continue
                if len(ri) <= len(items) + (2 if depth == 3 else 1) and self._ent(r, depth - 1, used + (f,)):
                    return True
        return False

    # -- extension; returns None when contradictory
    def add_eq(self, a, b):
        v = self.decide_eq(a, b)
        if v is True:
            return self
        if v is False:
            return None
        d = norm_eq(self.canon(sub(a, b)))
        c, items = lin(d)
        # choose an atom to eliminate: unit coefficient, "youngest" first
        best = None
        for x, n in items:
            if abs(n) != 1:
                continue
            if any(y is not x and contains(y, x) for y, _ in items):
                continue
            p = prio(x)
            if best is None or p > best[0]:
                best = (p, x, n)
        if best is None:
            return Facts(self.sb, self.le | {d, scale(d, -1)}, self.ne)
        _, x, n = best
        rest = {y: m for y, m in items if y != x}
        e = scale(mk(c, rest), -n)
        one = Facts({x: e})
        sb = {k: one.canon(v) for k, v in self.sb.items()}
        sb[x] = e
        f = Facts(sb)
        le = set()
        for l in (list(self.le) + [scale(e, -1)] if nonneg(x) else self.le):
            l2 = f.canon(l)
            if l2[0] == 'c':
                if l2[1] > 0:
                    return None
                continue
            le.add(tight(l2))
        ne = set()
        for l in self.ne:
            l2 = norm_eq(f.canon(l))
            if l2[0] == 'c':
                if l2[1] == 0:
                    return None
                continue
            ne.add(l2)
        return Facts(sb, frozenset(le), frozenset(ne))

    def add_ne(self, a, b):
        v = self.decide_eq(a, b)
        if v is False:
            return self
        if v is True:
            return None
        d = norm_eq(self.canon(sub(a, b)))
        le = self.le
        if self.entails_le(d):
            le = le | {add(d, C(1))}
        elif self.entails_le(scale(d, -1)):
            le = le | {add(scale(d, -1), C(1))}
        return Facts(self.sb, le, self.ne | {d})

    def add_le(self, a, b):
        v = self.decide_le(a, b)
        if v is True:
            return self
        if v is False:
            return None
        d = self.canon(sub(a, b))
        if norm_eq(d) in self.ne:
            d = add(d, C(1))
        elif self.entails_le(scale(d, -1)):
            return self.add_eq(a, b)
        return Facts(self.sb, self.le | {tight(d)}, self.ne)

    def holds(self, lit):
        op, a, b = lit
        if op == 'eq':
            return self.decide_eq(a, b) is True
        if op == 'ne':
            return self.decide_eq(a, b) is False
        if op == 'le':
            return self.decide_le(a, b) is True
        if op == 'lt':
            return self.decide_le(add(a, C(1)), b) is True
        if op == 'ge':
            return self.decide_le(b, a) is True
        if op == 'gt':
            return self.decide_le(add(b, C(1)), a) is True
        raise ValueError(op)

    def lits(self):
        for a, e in self.sb.items():
            yield ('eq', a, e)
        for l in self.le:
            yield ('le', l, C(0))
        for l in self.ne:
            yield ('ne', l, C(0))

    @staticmethod
    def join(fs):
        fs = list(fs)
        f0 = fs[0]
        if all(f.key() == f0.key() for f in fs[1:]):
            return f0
        out = Facts()
        seen = set()
        for i, f in enumerate(fs):
            for l in f.lits():
                if l in seen:
                    continue
                seen.add(l)
                if all(j == i or g.holds(l) for j, g in enumerate(fs)):
                    n = {'eq': out.add_eq, 'le': out.add_le, 'ne': out.add_ne}[l[0]](l[1], l[2])
                    if n is not None:
                        out = n
                elif l[0] == 'eq' and l[1][0] not in NOORD and l[2][0] not in NOORD:
                    # what an equality says about order may hold on all sides
                    for a, b in ((l[1], l[2]), (l[2], l[1])):
                        if all(j == i or g.decide_le(a, b) is True for j, g in enumerate(fs)):
                            n = out.add_le(a, b)
                            if n is not None:
                                out = n
        return out

    def show(self):
        s = []
        for a, e in self.sb.items():
            s.append('%s == %s' % (show(a), show(e)))
        for l in self.le:
            s.append('%s <= 0' % show(l))
        for l in self.ne:
            s.append('%s != 0' % show(l))
        return sorted(s)


NEVERNULL = set()     # containers of pointers that are never null
NNFIELDS = {'peers_', 'log_entries_', 'servers_'}     # members with such containers


def nonnull(x):
    if x[0] in ('new', 'this', 'sub', 'lam', 'str', 'addr'):
        return True
    if x[0] == 'fld' and x[2] == 'second':
        x = x[1]
    return x[0] == 'app' and x[1] == 'elem' and (x[2] in NEVERNULL or x[2][0] in ('fld', 'sub') and x[2][2] in NNFIELDS)


def distinct(x, y):
    """different terms that denote different objects/values for certain"""
    if x[0] == 'new' and y[0] == 'new':
        return x != y
    if (x[0] == 'new' and y[0] in ('fld', 'this', 'sub')) or (y[0] == 'new' and x[0] in ('fld', 'this', 'sub')):
        return True
    if x[0] == 'str' and y[0] == 'str':
        return x != y
    if x[0] == 'lam' or y[0] == 'lam':
        return x != y
    return False


def prio(x):
    k = x[0]
    return ({'sym': 3, 'app': 2, 'fld': 1}.get(k, 0), okey(x))
