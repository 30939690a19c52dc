"""Abstract values (immutable) and the operations that are generic in them."""
from terms import *


class _Undef:
    def __repr__(self):
        return 'UNDEF'


class _Poison:
    def __repr__(self):
        return 'POISON'


UNDEF = _Undef()      # never initialised
POISON = _Poison()    # loop-carried value the loop rule has not solved


class V:
    __slots__ = ()


class Agg(V):
    """struct, tuple or closure environment"""
    __slots__ = ('fields', 'ty')

    def __init__(self, fields, ty=None):
        self.fields = tuple(fields)
        self.ty = ty

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.fields))


VIDX = ('u', 32)


class Enum(V):
    """disc: variant index (term); vs: variant -> fields, for every possible variant"""
    __slots__ = ('disc', 'vs', 'ty')

    def __init__(self, disc, vs, ty=None):
        self.disc = disc
        self.vs = vs
        self.ty = ty

    def __repr__(self):
        return 'Enum[%r]%r' % (self.disc, self.vs)


def variant(i, fields, ty=None):
    return Enum(const(i, VIDX), {i: tuple(fields)}, ty)


class Arr(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return '[%s%s]' % (', '.join(map(repr, self.items[:6])), '..%d' % len(self.items) if len(self.items) > 6 else '')


class Stack(V):
    """n items given as one value over `dim`"""
    __slots__ = ('dim', 'item')

    def __init__(self, dim, item):
        self.dim = dim
        self.item = item

    def __repr__(self):
        return 'Stack<%r>(%r)' % (self.dim, self.item)


class Log(V):
    """A growable list known by its push sites: entries (time, guard, value, site)."""
    __slots__ = ('entries',)

    def __init__(self, entries=()):
        self.entries = tuple(entries)

    def __repr__(self):
        return 'Log%d' % len(self.entries)


class Ragged(V):
    """A list whose length varies: items[k] counts only where k < n."""
    __slots__ = ('items', 'n')

    def __init__(self, items, n):
        self.items = tuple(items)
        self.n = n

    def __repr__(self):
        return 'Ragged%d' % len(self.items)


class Vec(V):
    """An owning sequence (Vec, Box<[T]>); content: Arr | Stack | Log"""
    __slots__ = ('content',)

    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return 'Vec' + repr(self.content)


class Ptr(V):
    """Reference to a place.  meta = (offset, length) for slices."""
    __slots__ = ('alloc', 'path', 'meta')

    def __init__(self, alloc, path=(), meta=None):
        self.alloc = alloc
        self.path = tuple(path)
        self.meta = meta

    def __repr__(self):
        return '&%s%s%s' % (self.alloc, list(self.path) if self.path else '', '' if self.meta is None else self.meta)


class DynPtr(V):
    __slots__ = ('ptr', 'ty')

    def __init__(self, ptr, ty):
        self.ptr = ptr
        self.ty = ty


class Str(V):
    """Owned String"""
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return 'String(%r)' % self.term


class StrRef(V):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return 'str(%r)' % self.term


class Map(V):
    """A hash map known by its insertion sites: entries (time, guard, key, value, site)."""
    __slots__ = ('entries', 'kind')

    def __init__(self, entries=(), kind='map'):
        self.entries = tuple(entries)
        self.kind = kind

    def __repr__(self):
        return 'Map%d' % len(self.entries)


class OpenLog(Log):
    """A list inside a loop body: it may be extended but not read."""
    __slots__ = ()


class OpenMap(Map):
    __slots__ = ()


class Fn(V):
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst


class Iter(V):
    """A library iterator: a sequence with front/back cursors."""
    __slots__ = ('seq', 'i', 'j')

    def __init__(self, seq, i=0, j=None):
        self.seq = seq
        self.i = i
        self.j = j          # exclusive end, None = seq length

    def __repr__(self):
        return 'Iter(%r,%s,%s)' % (self.seq, self.i, self.j)


class LoopItem(V):
    """Placeholder for the iterator of a loop analysed with its iteration as a dimension."""
    __slots__ = ('value', 'used')

    def __init__(self, value, used=False):
        self.value = value
        self.used = used


class Union(V):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Union%d' % len(self.alts)


class Opaque(V):
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


UNIT = Agg(())


def same(a, b):
    """Structural identity (sound, not complete)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Term):
        return False
    if isinstance(a, Agg):
        return len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Enum):
        return a.disc is b.disc and a.vs.keys() == b.vs.keys() and all(
            len(a.vs[k]) == len(b.vs[k]) and all(same(x, y) for x, y in zip(a.vs[k], b.vs[k])) for k in a.vs)
    if isinstance(a, Arr):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Stack):
        return a.dim is b.dim and same(a.item, b.item)
    if isinstance(a, Ragged):
        return a.n is b.n and len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Vec):
        return same(a.content, b.content)
    if isinstance(a, Ptr):
        if a.alloc != b.alloc or len(a.path) != len(b.path) or (a.meta is None) != (b.meta is None):
            return False
        if a.meta is not None and (a.meta[0] is not b.meta[0] or a.meta[1] is not b.meta[1]):
            return False
        return all(x == y for x, y in zip(a.path, b.path))
    if isinstance(a, DynPtr):
        return a.ty == b.ty and same(a.ptr, b.ptr)
    if isinstance(a, (Str, StrRef)):
        return a.term is b.term
    if isinstance(a, Fn):
        return a.inst == b.inst
    if isinstance(a, Iter):
        return a.seq is b.seq and a.i == b.i and a.j == b.j
    if isinstance(a, (Log, Map)):
        return len(a.entries) == len(b.entries) and all(x is y for x, y in zip(a.entries, b.entries))
    if isinstance(a, LoopItem):
        return a.value is b.value and a.used == b.used
    if isinstance(a, Opaque):
        return a.tag == b.tag and a.data is b.data
    return False


HOOK = [None]       # names selections between evaluations (score.py)


def merge(c, a, b):
    """The value that is `a` where c holds and `b` where it does not."""
    if c.is_const:
        return a if c.data else b
    if same(a, b):
        return a
    if HOOK[0] is not None and type(a) in (Agg, Enum) and type(b) is type(a):
        r = HOOK[0](c, a, b)
        if r is not None:
            return r
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a is POISON or b is POISON:
        return POISON
    ta, tb = type(a), type(b)
    if ta is Term and tb is Term:
        if a.sort != b.sort:
            raise Unsupported('join of sorts %s and %s' % (a.sort, b.sort))
        return ite(c, a, b)
    if ta is tb:
        if ta is Agg and len(a.fields) == len(b.fields):
            return Agg([merge(c, x, y) for x, y in zip(a.fields, b.fields)], a.ty)
        if ta is Enum:
            vs = {}
            for k in sorted(set(a.vs) | set(b.vs)):
                if k in a.vs and k in b.vs:
                    vs[k] = tuple(merge(c, x, y) for x, y in zip(a.vs[k], b.vs[k]))
                else:
                    vs[k] = a.vs[k] if k in a.vs else b.vs[k]
            return Enum(ite(c, a.disc, b.disc), vs, a.ty)
        if ta is Arr and len(a.items) == len(b.items):
            return Arr([merge(c, x, y) for x, y in zip(a.items, b.items)])
        if ta is Stack and a.dim.size == b.dim.size:
            y = b.item if a.dim is b.dim else vrestrict(b.item, {b.dim: (a.dim, np.arange(a.dim.size))})
            return Stack(a.dim, merge(c, a.item, y))
        if ta is Vec:
            x, y = a.content, b.content
            if isinstance(x, Arr) and isinstance(y, Arr) and len(x.items) == len(y.items):
                return Vec(merge(c, x, y))
            if isinstance(x, Stack) and isinstance(y, Stack) and x.dim.size == y.dim.size:
                return Vec(merge(c, x, y))
            return Vec(merge_log(c, as_log(x), as_log(y)))
        if ta is Log or ta is OpenLog:
            return merge_log(c, a, b)
        if ta is Ragged:
            m = max(len(a.items), len(b.items))
            xs = [list(v.items) + list(w.items[len(v.items):]) for v, w in ((a, b), (b, a))]
            return Ragged([merge(c, x, y) for x, y in zip(*xs)], ite(c, a.n, b.n))
        if ta in (Map, OpenMap) and a.kind == b.kind:
            n = 0
            while n < len(a.entries) and n < len(b.entries) and a.entries[n] is b.entries[n]:
                n += 1
            e = list(a.entries[:n])
            e += [x._replace(guard=land(c, x.guard)) for x in a.entries[n:]]
            e += [x._replace(guard=land(lnot(c), x.guard)) for x in b.entries[n:]]
            return ta(e, a.kind)
        if ta is Ptr and a.alloc == b.alloc and len(a.path) == len(b.path) and (a.meta is None) == (b.meta is None):
            ok, p = True, []
            for x, y in zip(a.path, b.path):
                if x == y:
                    p.append(x)
                elif x[0] == 'i' and y[0] == 'i':
                    p.append(('i', ite(c, x[1], y[1])))
                else:
                    ok = False
                    break
            if ok:
                m = None
                if a.meta is not None:
                    m = (ite(c, a.meta[0], b.meta[0]), ite(c, a.meta[1], b.meta[1]))
                return Ptr(a.alloc, p, m)
        if ta is Str:
            return Str(ite(c, a.term, b.term))
        if ta is StrRef:
            return StrRef(ite(c, a.term, b.term))
    return Union(_alts(c, a) + _alts(lnot(c), b))


def _alts(c, v):
    if isinstance(v, Union):
        return [(land(c, g), x) for g, x in v.alts if land(c, g) is not FALSE]
    return [(c, v)]


from collections import namedtuple

Entry = namedtuple('Entry', 'time guard key value site')


def as_log(content):
    if isinstance(content, Log):
        return content
    if isinstance(content, Arr):
        return Log([Entry((), TRUE, None, x, None) for x in content.items])
    if isinstance(content, Ragged):
        return Log([Entry((), lt(usz(k), content.n), None, x, None) for k, x in enumerate(content.items)])
    return Log([Entry((content.dim,), TRUE, None, content.item, None)])


def merge_log(c, a, b):
    n = 0
    while n < len(a.entries) and n < len(b.entries) and (
            a.entries[n] is b.entries[n] or (
                same(a.entries[n].value, b.entries[n].value) and a.entries[n].guard is b.entries[n].guard
                and a.entries[n].time == b.entries[n].time)):
        n += 1
    e = list(a.entries[:n])
    e += [x._replace(guard=land(c, x.guard)) for x in a.entries[n:]]
    e += [x._replace(guard=land(lnot(c), x.guard)) for x in b.entries[n:]]
    return type(a)(e) if type(a) is type(b) else Log(e)


# ------------------------------------------------------------------ generic maps
def vmap(v, f, memo=None):
    """Rebuild a value with f applied to every term in it."""
    if isinstance(v, Term):
        return f(v)
    t = type(v)
    if t is Agg:
        return Agg([vmap(x, f) for x in v.fields], v.ty)
    if t is Enum:
        return Enum(f(v.disc), {k: tuple(vmap(x, f) for x in fs) for k, fs in v.vs.items()}, v.ty)
    if t is Arr:
        return Arr([vmap(x, f) for x in v.items])
    if t is Stack:
        return Stack(v.dim, vmap(v.item, f))
    if t is Ragged:
        return Ragged([vmap(x, f) for x in v.items], f(v.n))
    if t is Vec:
        return Vec(vmap(v.content, f))
    if t is Log or t is OpenLog:
        return t([e._replace(guard=f(e.guard), value=vmap(e.value, f)) for e in v.entries])
    if t is Map or t is OpenMap:
        return t([e._replace(guard=f(e.guard), key=vmap(e.key, f),
                               value=vmap(e.value, f) if e.value is not None else None) for e in v.entries], v.kind)
    if t is Ptr:
        return Ptr(v.alloc, [(p[0], f(p[1])) if p[0] == 'i' else p for p in v.path],
                   None if v.meta is None else (f(v.meta[0]), f(v.meta[1])))
    if t is DynPtr:
        return DynPtr(vmap(v.ptr, f), v.ty)
    if t is Str:
        return Str(f(v.term))
    if t is StrRef:
        return StrRef(f(v.term))
    if t is Union:
        return Union([(f(g), vmap(x, f)) for g, x in v.alts])
    if t is Iter:
        s = v.seq.vmap(f)
        return Iter(s, v.i, v.j) if s is not v.seq else v
    if t is Opaque and hasattr(v.data, 'vmap'):
        return Opaque(v.tag, v.data.vmap(f))
    return v


def vsubst(v, m):
    memo = {}
    return vmap(v, lambda t: subst(t, m, memo))


def vrestrict(v, env):
    memo = {}
    return vmap(v, lambda t: restrict(t, env, memo))


def vterms(v):
    out = []

    def f(t):
        out.append(t)
        return t
    vmap(v, f)
    return out


def vsyms(v):
    s = set()
    for t in vterms(v):
        s |= t.syms
    return s


def vdims(v):
    s = set()
    for t in vterms(v):
        s |= t.dims
    return s


def select(items, idx):
    """items[idx] for a symbolic index, item by item and leaf by leaf."""
    if idx.is_const:
        return items[idx.data]
    first = items[0]
    if all(same(first, x) for x in items[1:]):
        return first
    if isinstance(first, Term):
        if not all(isinstance(x, Term) and x.sort == first.sort for x in items):
            raise Unsupported('indexing mixed scalars')
        return mk('sel', first.sort, idx, *items)
    t = type(first)
    if all(type(x) is t for x in items):
        if t is Agg:
            return Agg([select([x.fields[i] for x in items], idx) for i in range(len(first.fields))], first.ty)
        if t is Enum:
            ks = sorted(set(k for x in items for k in x.vs))
            vs = {}
            for k in ks:
                rep = next(x.vs[k] for x in items if k in x.vs)
                vs[k] = tuple(select([(x.vs[k] if k in x.vs else rep)[i] for x in items], idx) for i in range(len(rep)))
            return Enum(select([x.disc for x in items], idx), vs, first.ty)
        if t is Arr and len(set(len(x.items) for x in items)) == 1:
            return Arr([select([x.items[i] for x in items], idx) for i in range(len(first.items))])
        if t in (Str, StrRef):
            return t(mk('sel', 'str', idx, *[x.term for x in items]))
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
        r = merge(eq(idx, const(i, idx.sort)), items[i], r)
    return r


def index_stack(st, idx):
    """Element idx (a term) of a Stack."""
    if idx.is_const:
        return vrestrict(st.item, {st.dim: idx.data})
    t = force(idx)
    if t.is_const:
        return vrestrict(st.item, {st.dim: t.data})
    dims, arr = t.data
    ia = np.minimum(np.asarray(arr).astype(np.int64), st.dim.size - 1)
    return vrestrict(st.item, {st.dim: (dims, ia)})
