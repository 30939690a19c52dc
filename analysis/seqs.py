"""Library iterators as sequences: explicit items, or one item over an iteration dimension."""
import numpy as np
from terms import *
from values import *


def tabdim(dim, arr, sort):
    return tab([dim], np.asarray(arr, dtype=dtype(sort)), sort)


def stackup(values, dim):
    """One value over `dim` whose point i is values[i]."""
    v0 = values[0]
    if all(same(v0, x) for x in values[1:]):
        return v0
    if isinstance(v0, Term):
        sort = v0.sort
        if not all(isinstance(x, Term) and x.sort == sort for x in values):
            raise Unsupported('sequence of mixed scalars')
        if all(x.is_const for x in values):
            a = np.empty(len(values), dtype=dtype(sort))
            for i, x in enumerate(values):
                a[i] = x.data
            return tab([dim], a, sort)
        dims = set()
        for x in values:
            dims |= x.dims
        size = dim.size
        for d in dims:
            size *= d.size
        if size <= 1 << 20 and not any(x.syms for x in values):
            dl = sorted(dims)
            shape = tuple(d.size for d in dl)
            a = np.empty((len(values),) + shape, dtype=dtype(sort))
            env = grid([(d, np.arange(d.size)) for d in dl])
            for i, x in enumerate(values):
                a[i] = np.broadcast_to(evaluate(x, env), shape)
            return tab([dim] + dl, a, sort)
        return mk('sel', sort, dimvar(dim), *values)
    t = type(v0)
    if not all(type(x) is t for x in values):
        raise Unsupported('sequence of mixed values')
    if t is Agg:
        return Agg([stackup([x.fields[i] for x in values], dim) for i in range(len(v0.fields))], v0.ty)
    if t is Arr and len(set(len(x.items) for x in values)) == 1:
        return Arr([stackup([x.items[i] for x in values], dim) for i in range(len(v0.items))])
    if t is Enum:
        vs = {}
        for k in sorted(set(k for x in values for k in x.vs)):
            rep = next(x.vs[k] for x in values if k in x.vs)
            vs[k] = tuple(stackup([(x.vs[k] if k in x.vs else rep)[i] for x in values], dim) for i in range(len(rep)))
        return Enum(stackup([x.disc for x in values], dim), vs, v0.ty)
    if t in (Str, StrRef):
        return t(stackup([x.term for x in values], dim))
    if t is Ptr and all(x.alloc == v0.alloc and len(x.path) == len(v0.path) for x in values):
        path = []
        for i, p in enumerate(v0.path):
            ps = [x.path[i] for x in values]
            if all(q == p for q in ps):
                path.append(p)
            elif all(q[0] == 'i' for q in ps):
                path.append(('i', stackup([q[1] for q in ps], dim)))
            else:
                raise Unsupported('sequence of mixed references')
        m = None
        if v0.meta is not None:
            m = (stackup([x.meta[0] for x in values], dim), stackup([x.meta[1] for x in values], dim))
        return Ptr(v0.alloc, path, m)
    if t is Ptr:
        raise Unsupported('sequence of references to different places')
    raise Unsupported('sequence of %s' % t.__name__)


class Seq:
    def known_len(self):
        return None

    def guarded(self):
        return False

    def endless(self):
        """Whether it may be without end; bounded(n) is then its first n items."""
        return False

    def bounded(self, n):
        raise Unsupported('the beginning of an endless %s' % type(self).__name__)

    def items(self, I, st):
        if self.endless():
            raise Unsupported('an endless sequence')
        n = self.known_len()
        if n is None or n > 20000:
            raise Unsupported('sequence without a known length')
        return [(TRUE, self.get(I, st, i)) for i in range(n)]

    def get(self, I, st, i):
        raise Unsupported('element access of %s' % type(self).__name__)

    def lift(self, I, st):
        it = self.items(I, st)
        dim = Dim('it', len(it))
        if not it:
            return dim, TRUE, None
        g = stackup([g for g, _ in it], dim)
        return dim, g, stackup([v for _, v in it], dim)

    def vmap(self, f):
        return self


class EmptySeq(Seq):
    def known_len(self):
        return 0

    def items(self, I, st):
        return []


class ListSeq(Seq):
    def __init__(self, its):
        self.its = list(its)

    def known_len(self):
        return len(self.its)

    def guarded(self):
        return any(g is not TRUE for g, _ in self.its)

    def items(self, I, st):
        return self.its

    def get(self, I, st, i):
        g, v = self.its[i]
        if g is not TRUE:
            raise Unsupported('stepping through a filtered sequence')
        return v

    def vmap(self, f):
        return ListSeq([(f(g), vmap(v, f)) for g, v in self.its])


class HintSeq(ListSeq):
    """Items of an iterator whose size hint is (lo, hi) further from the truth than it need be."""

    def __init__(self, its, less, more):
        super().__init__(its)
        self.less, self.more = less, more

    def vmap(self, f):
        return HintSeq([(f(g), vmap(v, f)) for g, v in self.its], self.less, self.more)

    def hint(self, n):
        """Size hint when n items remain; no upper bound is None."""
        return max(0, n - self.less), None if self.more is None else n + self.more


def hinted(s):
    """The sequence of that kind below adaptors, and whether only length-preserving adaptors are above it."""
    plain = True
    while not isinstance(s, HintSeq):
        if not isinstance(s, (MapSeq, RevSeq, SubSeq)) or isinstance(s, SubSeq) and (s.j is not None or s.i):
            plain = False
        s = getattr(s, 'inner', None)
        if s is None:
            return None, True
    return s, plain


class RangeSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b         # terms, exclusive end

    def known_len(self):
        if self.a.is_const and self.b.is_const:
            return max(0, self.b.data - self.a.data)
        n = sub(self.b, self.a)
        if n.is_const:
            return max(0, n.data)
        return None

    def get(self, I, st, i):
        return add(self.a, const(i, self.a.sort))

    def guarded(self):
        return self.known_len() is None

    def items(self, I, st):
        if self.known_len() is not None:
            return Seq.items(self, I, st)
        n = ite(lt(self.a, self.b), sub(self.b, self.a), const(0, self.a.sort))
        if n.syms:
            raise Unsupported('range without a known length')
        t = force(n)
        m = int(t.data if t.is_const else t.data[1].max())
        if m > 600:
            raise Unsupported('a long range without a known length')
        return [(lt(const(i, n.sort), n), self.get(I, st, i)) for i in range(m)]

    def lift(self, I, st):
        n = self.known_len()
        if n is None:
            raise Unsupported('range without a known length')
        dim = Dim('range', n)
        if n == 0:
            return dim, TRUE, None
        return dim, TRUE, add(self.a, cast(dimvar(dim), self.a.sort))

    def vmap(self, f):
        return RangeSeq(f(self.a), f(self.b))


class CharsRange(Seq):
    pass


class SliceSeq(Seq):
    """References to the elements of a slice."""

    def __init__(self, ptr):
        self.ptr = ptr

    def known_len(self):
        return self.ptr.meta[1].data if self.ptr.meta[1].is_const else None

    def guarded(self):
        return not self.ptr.meta[1].is_const

    def items(self, I, st):
        if not self.guarded():
            return Seq.items(self, I, st)
        n = self.ptr.meta[1]
        if n.syms:
            raise Unsupported('slice without a known length')
        t = force(n)
        m = int(t.data if t.is_const else t.data[1].max())
        if m > 600:
            raise Unsupported('a long slice without a known length')
        return [(lt(usz(i), n), self.get(I, st, i)) for i in range(m)]

    def get(self, I, st, i):
        off, n = self.ptr.meta
        return Ptr(self.ptr.alloc, self.ptr.path + (('i', add(off, usz(i))),))

    def lift(self, I, st):
        n = self.known_len()
        if n is None:
            raise Unsupported('slice without a known length')
        dim = Dim('slice', n)
        if n == 0:
            return dim, TRUE, None
        return dim, TRUE, Ptr(self.ptr.alloc, self.ptr.path + (('i', add(self.ptr.meta[0], dimvar(dim))),))

    def vmap(self, f):
        return SliceSeq(vmap(self.ptr, f))


class StackSeq(Seq):
    def __init__(self, dim, item):
        self.dim, self.item = dim, item

    def known_len(self):
        return self.dim.size

    def get(self, I, st, i):
        return vrestrict(self.item, {self.dim: i})

    def lift(self, I, st):
        d = Dim('it', self.dim.size)
        return d, TRUE, vrestrict(self.item, {self.dim: (d, np.arange(d.size))})

    def vmap(self, f):
        return StackSeq(self.dim, vmap(self.item, f))


class SubSeq(Seq):
    def __init__(self, inner, i, j):
        self.inner, self.i, self.j = inner, i, j

    def endless(self):
        return self.j is None and self.inner.endless()

    def bounded(self, n):
        return SubSeq(self.inner.bounded(n + self.i), self.i, None)

    def known_len(self):
        if self.j is not None and self.inner.endless():
            return SubSeq(self.inner.bounded(self.j), self.i, self.j).known_len()
        n = self.inner.known_len()
        if n is None or self.inner.guarded():
            return None
        return max(0, min(self.j if self.j is not None else n, n) - self.i)

    def get(self, I, st, i):
        return self.inner.get(I, st, self.i + i)

    def items(self, I, st):
        if self.inner.guarded():
            raise Unsupported('part of a filtered sequence')
        return self.inner.items(I, st)[self.i:self.j]

    def lift(self, I, st):
        if self.inner.guarded():
            raise Unsupported('part of a filtered sequence')
        dim, g, v = self.inner.lift(I, st)
        n = self.known_len()
        d = Dim('it', n)
        if n == 0:
            return d, TRUE, None
        env = {dim: (d, np.arange(n) + self.i)}
        return d, restrict(g, env), vrestrict(v, env)

    def vmap(self, f):
        return SubSeq(self.inner.vmap(f), self.i, self.j)


class MapSeq(Seq):
    def __init__(self, inner, f, fty):
        self.inner, self.f, self.fty = inner, f, fty

    def known_len(self):
        return self.inner.known_len()

    def guarded(self):
        return self.inner.guarded()

    def app(self, I, st, v):
        return I.call_value(self.f, self.fty, [v], st)

    def endless(self):
        return self.inner.endless()

    def bounded(self, n):
        return self.over(self.inner.bounded(n))

    def over(self, inner):
        import copy
        r = copy.copy(self)
        r.inner = inner
        return r

    def get(self, I, st, i):
        return self.app(I, st, self.inner.get(I, st, i))

    def items(self, I, st):
        return [(g, guarded_call(I, st, g, lambda s: self.app(I, s, v))) for g, v in self.inner.items(I, st)]

    def lift(self, I, st):
        d, g, v = self.inner.lift(I, st)
        if d.size == 0:
            return d, g, v
        return d, g, guarded_call(I, st, g, lambda s: self.app(I, s, v))


def guarded_call(I, st, g, f):
    if g is TRUE:
        return f(st)
    p = st.path
    st.path = land(p, g)
    try:
        return f(st)
    finally:
        st.path = p


class RevSeq(Seq):
    def __init__(self, inner):
        self.inner = inner

    def known_len(self):
        return self.inner.known_len()

    def guarded(self):
        return self.inner.guarded()

    def get(self, I, st, i):
        return self.inner.get(I, st, self.known_len() - 1 - i)

    def items(self, I, st):
        return self.inner.items(I, st)[::-1]

    def lift(self, I, st):
        d, g, v = self.inner.lift(I, st)
        if d.size == 0:
            return d, g, v
        e = Dim('rev', d.size)
        env = {d: (e, np.arange(d.size)[::-1])}
        return e, restrict(g, env), vrestrict(v, env)


class FilterSeq(Seq):
    """keep(item) -> (guard, value)"""

    def __init__(self, inner, keep):
        self.inner, self.keep = inner, keep

    def known_len(self):
        return self.inner.known_len()

    def guarded(self):
        return True

    def items(self, I, st):
        out = []
        for g, v in self.inner.items(I, st):
            k, w = guarded_call(I, st, g, lambda s: self.keep(I, s, v))
            gg = land(g, k)
            if gg is not FALSE:
                out.append((gg, w))
        return out

    def lift(self, I, st):
        d, g, v = self.inner.lift(I, st)
        if d.size == 0:
            return d, g, v
        k, w = guarded_call(I, st, g, lambda s: self.keep(I, s, v))
        return d, land(g, k), w


class ChainSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def endless(self):
        return self.a.endless() or self.b.endless()

    def bounded(self, n):
        if self.a.endless():
            return self.a.bounded(n)
        k = self.a.known_len()
        if k is None or self.a.guarded():
            raise Unsupported('the beginning of an endless chain')
        return SubSeq(self.a, 0, n) if n <= k else ChainSeq(self.a, self.b.bounded(n - k))

    def known_len(self):
        x, y = self.a.known_len(), self.b.known_len()
        return None if x is None or y is None else x + y

    def guarded(self):
        return self.a.guarded() or self.b.guarded()

    def get(self, I, st, i):
        n = self.a.known_len()
        return self.a.get(I, st, i) if i < n else self.b.get(I, st, i - n)

    def items(self, I, st):
        return list(self.a.items(I, st)) + list(self.b.items(I, st))

    def lift(self, I, st):
        d1, g1, v1 = self.a.lift(I, st)
        d2, g2, v2 = self.b.lift(I, st)
        n = d1.size + d2.size
        d = Dim('chain', n)
        if n == 0:
            return d, TRUE, None
        r = np.arange(n)
        if d2.size == 0:
            return d, restrict(g1, {d1: (d, r)}), vrestrict(v1, {d1: (d, r)})
        e2 = {d2: (d, np.maximum(r - d1.size, 0))}
        if d1.size == 0:
            return d, restrict(g2, e2), vrestrict(v2, e2)
        e1 = {d1: (d, np.minimum(r, d1.size - 1))}
        c = tab([d], r < d1.size, 'bool')
        return d, ite(c, restrict(g1, e1), restrict(g2, e2)), merge(c, vrestrict(v1, e1), vrestrict(v2, e2))


class ZipSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def known_len(self):
        x, y = self.a.known_len(), self.b.known_len()
        if self.a.guarded() or self.b.guarded():
            return None
        if x is None:
            return y
        if y is None:
            return x
        return min(x, y)

    def get(self, I, st, i):
        return Agg([self.a.get(I, st, i), self.b.get(I, st, i)])

    def endless(self):
        return self.a.endless() and self.b.endless()

    def bounded(self, n):
        return ZipSeq(self.a.bounded(n), self.b.bounded(n))

    def guarded(self):
        return self.a.guarded() or self.b.guarded()

    def items(self, I, st):
        if not self.guarded():
            n = self.known_len()
            if n is None:
                raise Unsupported('zip of unknown lengths')
            xs, ys = [(s.bounded(n) if s.endless() else s).items(I, st)[:n] for s in (self.a, self.b)]
            return [(TRUE, Agg([x, y])) for (_, x), (_, y) in zip(xs, ys)]
        # partners are the items of the same rank
        a, b = self.a, self.b
        if a.endless():
            a = a.bounded(len(b.items(I, st)))
        xs = ranked(a.items(I, st))
        if b.endless():
            b = b.bounded(len(xs))
        ys = ranked(b.items(I, st))
        out = []
        for g, r, x in xs:
            hit, val = FALSE, None
            for h, q, y in ys:
                c = land(h, eq(r, q))
                if c is FALSE:
                    continue
                val = y if val is None else merge(c, y, val)
                hit = lor(hit, c)
            c = land(g, hit)
            if c is not FALSE:
                out.append((c, Agg([x, val])))
        return out

    def lift(self, I, st):
        if self.guarded():
            return Seq.lift(self, I, st)
        n = self.known_len()
        if n is None:
            raise Unsupported('zip of unknown lengths')
        d = Dim('zip', n)
        if n == 0:
            return d, TRUE, None
        r = np.arange(n)

        def one(s):
            if s.endless():
                s = s.bounded(n)
            dd, g, v = s.lift(I, st)
            return vrestrict(v, {dd: (d, r)})
        return d, TRUE, Agg([one(self.a), one(self.b)])


def ranked(its):
    """(guard, number of items before, value)"""
    out, cnt = [], usz(0)
    for g, v in its:
        out.append((g, cnt, v))
        cnt = add(cnt, ite(g, usz(1), usz(0)))
    return out


class RepeatSeq(Seq):
    def __init__(self, v):
        self.v = v

    def endless(self):
        return True

    def bounded(self, n):
        return ListSeq([(TRUE, self.v)] * n)

    def get(self, I, st, i):
        return self.v

    def vmap(self, f):
        return RepeatSeq(vmap(self.v, f))


class CallSeq(MapSeq):
    """f(), f(), ..."""

    def app(self, I, st, v):
        return I.call_value(self.f, self.fty, [], st)


class CycleSeq(Seq):
    def __init__(self, a):
        self.a = a

    def endless(self):
        return True

    def bounded(self, n):
        k = self.a.known_len()
        if k is None or self.a.guarded() or self.a.endless():
            raise Unsupported('cycle over a filtered sequence')
        s = EmptySeq()
        if k:
            s = self.a
            while s.known_len() < n:
                s = ChainSeq(s, self.a)
        return SubSeq(s, 0, n)

    def get(self, I, st, i):
        k = self.a.known_len()
        if not k or self.a.guarded():
            raise Unsupported('cycle over a filtered sequence')
        return self.a.get(I, st, i % k)


class CountFrom(Seq):
    """start.. (unbounded)"""

    def endless(self):
        return True

    def __init__(self, a):
        self.a = a

    def bounded(self, n):
        return RangeSeq(self.a, add(self.a, const(n, self.a.sort)))

    def get(self, I, st, i):
        return add(self.a, const(i, self.a.sort))


class EnumSeq(Seq):
    def __init__(self, inner):
        self.inner = inner

    def endless(self):
        return self.inner.endless()

    def bounded(self, n):
        return EnumSeq(self.inner.bounded(n))

    def guarded(self):
        return self.inner.guarded()

    def items(self, I, st):
        if not self.inner.guarded():
            return Seq.items(self, I, st)
        return [(g, Agg([r, v])) for g, r, v in ranked(self.inner.items(I, st))]

    def known_len(self):
        return None if self.inner.guarded() else self.inner.known_len()

    def get(self, I, st, i):
        return Agg([usz(i), self.inner.get(I, st, i)])

    def lift(self, I, st):
        if self.inner.guarded():
            return Seq.lift(self, I, st)
        d, g, v = self.inner.lift(I, st)
        return d, g, Agg([dimvar(d), v])


class StepSeq(Seq):
    def __init__(self, inner, k):
        self.inner, self.k = inner, k

    def endless(self):
        return self.inner.endless()

    def bounded(self, n):
        return StepSeq(self.inner.bounded((n - 1) * self.k + 1 if n else 0), self.k)

    def items(self, I, st):
        if not self.inner.guarded():
            return Seq.items(self, I, st)
        k = usz(self.k)
        return [(c, v) for c, v in ((land(g, eq(mk('rem', USIZE, r, k), usz(0))), v) for g, r, v in ranked(self.inner.items(I, st)))
                if c is not FALSE]

    def guarded(self):
        return self.inner.guarded()

    def known_len(self):
        n = self.inner.known_len()
        if n is None or self.inner.guarded():
            return None
        return (n + self.k - 1) // self.k

    def get(self, I, st, i):
        return self.inner.get(I, st, i * self.k)


class ProductSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def known_len(self):
        x, y = self.a.known_len(), self.b.known_len()
        if x is None or y is None or self.a.guarded() or self.b.guarded():
            return None
        return x * y

    def get(self, I, st, i):
        m = self.b.known_len()
        return Agg([self.a.get(I, st, i // m), self.b.get(I, st, i % m)])

    def items(self, I, st):
        xs, ys = self.a.items(I, st), self.b.items(I, st)
        return [(land(g, h), Agg([x, y])) for g, x in xs for h, y in ys]

    def lift(self, I, st):
        d1, g1, v1 = self.a.lift(I, st)
        d2, g2, v2 = self.b.lift(I, st)
        n = d1.size * d2.size
        d = Dim('product', n)
        if n == 0:
            return d, TRUE, None
        r = np.arange(n)
        e1 = {d1: (d, r // d2.size)}
        e2 = {d2: (d, r % d2.size)}
        return d, land(restrict(g1, e1), restrict(g2, e2)), Agg([vrestrict(v1, e1), vrestrict(v2, e2)])


class FlatMapSeq(Seq):
    """sub(item) -> Seq"""

    def __init__(self, inner, sub):
        self.inner, self.sub = inner, sub

    def guarded(self):
        return True

    def items(self, I, st):
        out = []
        for g, v in self.inner.items(I, st):
            s = self.sub(I, st, v)
            for h, w in s.items(I, st):
                out.append((land(g, h), w))
        return out

    def lift(self, I, st):
        d1, g1, v1 = self.inner.lift(I, st)
        if d1.size == 0:
            return d1, g1, v1
        s = self.sub(I, st, v1)
        d2, g2, v2 = s.lift(I, st)
        n = d1.size * d2.size
        d = Dim('flat', n)
        if n == 0:
            return d, TRUE, None
        r = np.arange(n)
        env = {d1: (d, r // d2.size), d2: (d, r % d2.size)}
        return d, land(restrict(g1, env), restrict(g2, env)), vrestrict(v2, env)


class CharSeq(Seq):
    """The characters of a string: known ones, then possibly an unknown tail."""

    def __init__(self, chars, tail=None):
        self.chars, self.tail = chars, tail

    def known_len(self):
        return len(self.chars) if self.tail is None else None

    def get(self, I, st, i):
        if i < len(self.chars):
            return self.chars[i]
        raise Unsupported('character %d of an arbitrary string' % i)

    def vmap(self, f):
        return CharSeq([f(c) for c in self.chars], None if self.tail is None else f(self.tail))


class LogSeq(Seq):
    """Items pushed under conditions."""

    def __init__(self, log):
        self.log = log

    def known_len(self):
        if any(isinstance(x, Dim) for e in self.log.entries for x in e.time):
            return None
        return len(self.log.entries)

    def guarded(self):
        return True

    def items(self, I, st):
        if any(isinstance(x, Dim) for e in self.log.entries for x in e.time):
            raise Unsupported('items of a long list')
        return [(e.guard, e.value) for e in self.log.entries]
