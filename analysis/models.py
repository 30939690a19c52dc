"""Meanings of the library functions the crate uses, in terms of the abstract values.

A function with no model here is analysed through its own MIR body.  A function with neither is
`Unsupported`, and the obligation that needed it is reported as undecided.
"""
import functools
import re
from terms import *
from values import *
from seqs import *

CRATES = ('poker', 'vroots')
REG, TRAIT, PATTERNS = {}, {}, []


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


def trait(*names):
    def d(f):
        for n in names:
            TRAIT[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx + r'$'), f))
        return f
    return d


_cache = {}


def lookup(I, inst, args, atys):
    key = inst['id']
    r = _cache.get((id(I.P), key), 0)
    if r == 0:
        r = _lookup(I.P, inst)
        _cache[(id(I.P), key)] = r
    return r


def _lookup(P, inst):
    np_, nt = inst['np'], inst['nt']
    if inst['kind'] == 'drop':
        return m_unit
    if inst['crate'] in CRATES:
        if nt == 'iter::Iterator::next':
            return m_next
        if not np_.startswith(('<AnyRng ', '<vroots::AnyRng ')):
            return None
    f = REG.get(np_)
    if f is not None:
        return f
    for rx, g in PATTERNS:
        m = rx.match(np_)
        if m:
            gr = m.groups()
            return lambda I, inst, args, st, atys, sp: g(I, inst, args, st, atys, sp, *gr)
    if nt is not None and not inst['closure']:
        f = TRAIT.get(nt)
        if f is not None and nt in FOLDING and inst['body'] is not None:
            own = own_fold(P, inst)
            if own:
                return None
        if f is not None:
            return f
    return None


# provided methods of Iterator that are defined by fold()
FOLDING = {'iter::Iterator::' + k for k in ('for_each', 'count', 'last', 'sum', 'product', 'max', 'min', 'max_by', 'min_by', 'max_by_key',
                                            'min_by_key', 'reduce', 'partition', 'unzip')}


def own_fold(P, inst):
    """Whether the receiver is an iterator of the crate with a fold() of its own."""
    t = inst['body']['locals'][1]
    T = P.types[t]
    if T['k'] != 'adt' or T['crate'] not in CRATES:
        return False
    return any(i['crate'] in CRATES and i['nt'] == 'iter::Iterator::fold' and i['body'] is not None and i['body']['locals'][1] == t
               for i in P.insts)


# ------------------------------------------------------------------ helpers
def aty(I, inst, atys, i):
    if atys is not None:
        return atys[i]
    b = inst['body']
    if b is not None and b.get('spread') is None:
        return b['locals'][1 + i]
    raise Unsupported('argument types of ' + inst['name'])


def deref(I, st, v):
    return I.read_ptr(st, v)


def some(v, ty=None):
    return variant(1, [v], ty)


def none(ty=None):
    return variant(0, [], ty)


def opt(cond, v, ty=None):
    if cond is TRUE:
        return some(v, ty)
    if cond is FALSE:
        return none(ty)
    return Enum(ite(cond, const(1, VIDX), const(0, VIDX)), {0: (), 1: (v,)}, ty)


def is_var(e, k):
    """Condition that enum value e is variant k."""
    if isinstance(e, Union):
        r = FALSE
        for g, x in e.alts:
            r = lor(r, land(g, is_var(x, k)))
        return r
    if not isinstance(e, Enum):
        raise Unsupported('variant test of %r' % (e,))
    if k not in e.vs:
        return FALSE
    return eq(e.disc, const(k, VIDX))


def var_field(e, k, i=0):
    if isinstance(e, Union):
        r = None
        for g, x in reversed(e.alts):
            if is_var(x, k) is FALSE:
                continue
            y = var_field(x, k, i)
            r = y if r is None else merge(g, y, r)
        if r is None:
            raise Unsupported('missing variant')
        return r
    return e.vs[k][i]


def ret_ty(inst):
    b = inst['body']
    return b['locals'][0] if b is not None else None


def m_unit(I, inst, args, st, atys, sp):
    return UNIT


def m_id(I, inst, args, st, atys, sp):
    return args[0]


def conditional(I, st, g, f):
    """Run f(state) where g holds, and join the effects.  Returns f's value."""
    if g is TRUE:
        return f(st)
    p = st.path
    s = st.fork()
    s.path = land(p, g)
    if s.path is FALSE:
        return None
    v = f(s)
    j = I.join2(g, s, st)
    st.mem = j.mem
    st.path = p
    return v


def as_slice(I, st, v):
    """A reference to a slice/array/Vec as a slice pointer."""
    if isinstance(v, Ptr):
        if v.meta is not None:
            return v
        x = I.read_ptr(st, v)
        if isinstance(x, Vec):
            return Ptr(v.alloc, v.path + (('c',),), (usz(0), I.vec_len(x)))
        if isinstance(x, (Ptr, Union)):
            return as_slice(I, st, x)
        if isinstance(x, Agg) and x.ty == 'box':
            return as_slice(I, st, Ptr(v.alloc, v.path + (('c',),)))
        return Ptr(v.alloc, v.path, (usz(0), I.arr_len(x)))
    if isinstance(v, Union):
        return Union([(g, as_slice(I, st, x)) for g, x in v.alts])
    raise Unsupported('slice of %r' % (v,))


def one_ptr(v):
    if isinstance(v, Union):
        raise Unsupported('joined reference')
    return v


def padded_elems(I, st, p):
    """(elements, length) of a slice whose length may vary."""
    off, n = p.meta
    if n.is_const:
        return slice_elems(I, st, p), n
    c = I.norm_content(I.read_path(I.getmem(st, p.alloc), p.path))
    return [I.index(c, add(off, usz(i))) for i in range(most(I, st, n, 64))], n


def slice_elems(I, st, p):
    """Explicit elements of a slice pointer (values)."""
    n = p.meta[1]
    if not n.is_const:
        raise Unsupported('slice without a known length')
    c = I.read_path(I.getmem(st, p.alloc), p.path)
    return [I.index(c, add(p.meta[0], usz(i))) for i in range(n.data)]


def content_of(I, st, p):
    """A slice pointer's whole content as Arr/Stack."""
    c = I.norm_content(I.read_path(I.getmem(st, p.alloc), p.path))
    n = p.meta[1]
    if p.meta[0].is_const and p.meta[0].data == 0 and n.is_const:
        if isinstance(c, Arr) and len(c.items) == n.data:
            return c
        if isinstance(c, Stack) and c.dim.size == n.data:
            return c
        if not isinstance(c, (Arr, Stack, Ragged)):
            return c
    if not n.is_const:
        return Ragged(*padded_elems(I, st, p))
    return Arr(slice_elems(I, st, p))


def seq_of_content(I, c):
    if isinstance(c, Log):
        from interp import OpenLog
        if isinstance(c, OpenLog):
            from interp import Unsolved
            raise Unsolved('iterating a list while it grows')
        if any(isinstance(x, Dim) for e in c.entries for x in e.time):
            c = I.norm_content(c)
        elif all(e.guard is TRUE for e in c.entries):
            c = Arr([e.value for e in c.entries])
        else:
            return LogSeq(c)
    if isinstance(c, Arr):
        return ListSeq([(TRUE, x) for x in c.items])
    if isinstance(c, Stack):
        return StackSeq(c.dim, c.item)
    if isinstance(c, Ragged):
        return ListSeq([(lt(usz(k), c.n), x) for k, x in enumerate(c.items)])
    raise Unsupported('iteration over %r' % (c,))


def is_range(I, v, ty):
    t = I.P.types[ty]
    return t['k'] == 'adt' and norm_path(t['path']) in (
        'ops::Range', 'ops::RangeInclusive', 'ops::RangeFrom', 'ops::range::Range', 'ops::RangeToInclusive')


def norm_path(p):
    from prog import norm
    return norm(p)


def range_seq(I, v, ty):
    t = I.P.types[ty]
    name = norm_path(t['path']).split('::')[-1]
    if name == 'Range':
        a, b = v.fields
    elif name == 'RangeInclusive':
        a, b = v.fields[0], v.fields[1]
        ex = v.fields[2] if len(v.fields) > 2 else FALSE
        if ex is not FALSE:
            raise Unsupported('partly consumed inclusive range')
        b = add(b, const(1, b.sort)) if b.sort != 'char' else cast(add(cast(b, ('u', 32)), const(1, ('u', 32))), 'char')
        if a.sort == 'char':
            raise Unsupported('range of characters')
    elif name == 'RangeFrom':
        return CountFrom(v.fields[0])
    else:
        raise Unsupported('range ' + name)
    if not isinstance(a, Term):
        raise Unsupported('range of %r' % (a,))
    if a.sort == 'char':
        raise Unsupported('range of characters')
    return RangeSeq(a, b)


STEP_LIMIT = 4000


def seq_of(I, v, ty, st, place=None):
    """The items an iterator value would still produce."""
    if isinstance(v, DynPtr) and v.ty is not None:
        return RefSeq(v.ptr, v.ty)
    if isinstance(v, Union) and all(isinstance(x, (Iter, DynPtr)) for _, x in v.alts):
        return EitherSeq([(g, seq_of(I, x, x.ty if isinstance(x, DynPtr) else ty, st)) for g, x in v.alts])
    if isinstance(v, Iter):
        if v.i == 0 and v.j is None:
            return v.seq
        return SubSeq(v.seq, v.i, v.j)
    if isinstance(v, LoopItem):
        return None
    if isinstance(v, Ptr):
        t = I.P.types[ty]
        if t['k'] == 'ref':
            if t.get('mut'):
                return RefSeq(v, t['ty'])
            inner = I.read_ptr(st, v)
            return seq_of(I, inner, t['ty'], st)
    if isinstance(v, Agg) and I.P.types[ty]['k'] == 'adt':
        t = I.P.types[ty]
        if is_range(I, v, ty):
            return range_seq(I, v, ty)
        if t['crate'] in CRATES:
            return step_user(I, v, ty, st)
        if I.P.find_trait('iter::Iterator::next', ty) is not None:
            return NextSeq(v, ty)
    raise Unsupported('iteration over %r' % (v,))


def step_user(I, v, ty, st, limit=None):
    """A user-written iterator, unfolded through its own `next`."""
    return ListSeq(drain_next(I, st, Ptr(I.new_alloc(st, v)), ty, limit))


def drain_next(I, st, p, ty, limit=None):
    nx = I.P.find_trait('iter::Iterator::next', ty)
    if nx is None:
        raise Unsupported('iterator without next')
    out = []
    alive = TRUE
    p0 = st.path
    for n in range(STEP_LIMIT):
        box = {}
        if limit is not None and n >= limit:
            break

        def f(s):
            box['r'] = I.call(nx, [p], s)
            return box['r']
        r = conditional(I, st, alive, f)
        if r is None:
            break
        c = land(alive, is_var(r, 1))
        if c is FALSE or I.surely_false(land(p0, c)):
            break
        out.append((c, var_field(r, 1)))
        alive = c
    else:
        raise Unsupported('iterator that does not end')
    st.path = p0
    return out


class NextSeq(Seq):
    """A library iterator with no model: driven by its own `next`."""

    def __init__(self, v, ty):
        self.v, self.ty = v, ty

    def guarded(self):
        return True

    def items(self, I, st):
        return drain_next(I, st, Ptr(I.new_alloc(st, self.v)), self.ty)

    def endless(self):
        return True

    def bounded(self, n):
        return NextSome(self.v, self.ty, n)


class NextSome(NextSeq):

    def __init__(self, v, ty, n):
        self.v, self.ty, self.n = v, ty, n

    def endless(self):
        return False

    def items(self, I, st):
        return drain_next(I, st, Ptr(I.new_alloc(st, self.v)), self.ty, self.n)


class RefSeq(Seq):
    """`&mut iterator`: taking items advances the iterator behind the reference."""

    def __init__(self, ptr, ty, limit=None):
        self.ptr, self.ty, self.limit = ptr, ty, limit

    def guarded(self):
        return True

    def items(self, I, st):
        v = I.read_ptr(st, self.ptr)
        n = self.limit
        if isinstance(v, Ptr):
            return RefSeq(v, I.P.types[self.ty]['ty'], n).items(I, st)
        if isinstance(v, LoopItem):
            raise Unsupported('a loop that advances its own iterator')
        if isinstance(v, Iter) and not refs_in(v.seq):
            seq = v.seq
            if n is None:
                its = (SubSeq(seq, v.i, v.j) if v.i or v.j is not None else seq).items(I, st)
                I.write_ptr(st, self.ptr, Iter(EmptySeq()))
                return its
            known = None if seq.guarded() else seq.known_len()
            if known is not None:
                end = v.j if v.j is not None else known
                k = max(0, min(n, end - v.i))
                I.write_ptr(st, self.ptr, Iter(seq, v.i + k, v.j))
                return [(TRUE, seq.get(I, st, v.i + i)) for i in range(k)]
            if n <= 64:
                return self.one_by_one(I, st, n)
        if n is not None and n <= 64 or isinstance(v, (Agg, Enum)):
            return self.one_by_one(I, st, n)
        raise Unsupported('iteration over %r' % (v,))

    def one_by_one(self, I, st, n):
        out, alive = [], TRUE
        for k in range(STEP_LIMIT if n is None else n):
            r = conditional(I, st, alive, lambda s: next_of(I, s, self.ptr, self.ty, None))
            if r is None:
                return out
            c = land(alive, is_var(r, 1))
            if c is FALSE or I.surely_false(land(st.path, c)):
                return out
            out.append((c, var_field(r, 1)))
            alive = c
        if n is None:
            raise Unsupported('iterator that does not end')
        return out


def parts_of(s):
    for k in ('inner', 'a', 'b'):
        x = getattr(s, k, None)
        if isinstance(x, Seq):
            yield x


def refs_in(s):
    """The iterators a sequence takes its items from through a reference."""
    out = [s] if isinstance(s, RefSeq) else []
    for x in parts_of(s):
        out += refs_in(x)
    return out


def driven(s):
    """Whether taking an item may run code or move another iterator, step by step."""
    return isinstance(s, (RefSeq, NextSeq)) or any(driven(x) for x in parts_of(s))


def poison_refs(I, st, s):
    """After a partial use the position of the iterators behind references is not tracked."""
    for r in refs_in(s):
        mark_consumed(I, st, r.ptr)


def spoil(I, st, snap, keep=()):
    """State changed by code that may have run further here than it does in reality."""
    for k, v in snap.items():
        if k in st.mem and st.mem[k] is not v and k not in keep:
            st.mem[k] = POISON


def changed(st, snap):
    return any(k in st.mem and st.mem[k] is not v for k, v in snap.items())


def early(I, st, seq):
    """The items of a sequence that may be left before its end."""
    snap = dict(st.mem)
    its = seq.items(I, st)
    spoil(I, st, snap)
    poison_refs(I, st, seq)
    return its


def tested(I, st, its, test, stop):
    """[(guard, condition, value)] of test(state, item), up to the first condition equal to `stop`."""
    def run(exact):
        out, alive = [], TRUE
        for g, v in its:
            if exact:
                r = conditional(I, st, land(alive, g), lambda s: test(s, v))
                if r is None:
                    continue
            else:
                r = test(st, v)
            c, w = r
            out.append((g, c, w))
            alive = land(alive, lnot(land(g, c if stop else lnot(c))))
            if alive is FALSE:
                break
        return out
    snap, ev, p0 = dict(st.mem), len(I.events), st.path
    r = run(False)
    if len(r) > 1 and (len(I.events) != ev or changed(st, snap)):
        del I.events[ev:]
        st.mem = dict(snap)
        st.path = p0
        r = run(True)
    return r


def arg_seq(I, inst, args, st, atys, i=0):
    s = seq_of(I, args[i], aty(I, inst, atys, i), st)
    if s is None:
        raise Unsupported('iterator of an open loop')
    return s


def into_seq(I, v, ty, st):
    """IntoIterator::into_iter as a sequence."""
    t = I.P.types[ty]
    k = t['k']
    if isinstance(v, (Iter,)):
        return seq_of(I, v, ty, st)
    if isinstance(v, Arr):
        return ListSeq([(TRUE, x) for x in v.items])
    if isinstance(v, Stack):
        return StackSeq(v.dim, v.item)
    if isinstance(v, Vec):
        return seq_of_content(I, v.content)
    if isinstance(v, Enum) and norm_path(t.get('path', '')) in ('option::Option', 'result::Result'):
        k = 1 if 'Option' in t['path'] else 0
        c = is_var(v, k)
        return ListSeq([(c, var_field(v, k))] if c is not FALSE else [])
    if isinstance(v, Ptr):
        if k == 'ref':
            it = I.P.types[t['ty']]
            if it['k'] in ('slice', 'array') or (it['k'] == 'adt' and norm_path(it['path']) in ('vec::Vec', 'boxed::Box')):
                return SliceSeq(as_slice(I, st, v))
            return seq_of(I, v, ty, st)
    if isinstance(v, (Agg, DynPtr, Union)):
        return seq_of(I, v, ty, st)
    raise Unsupported('iteration over %r' % (v,))


class EitherSeq(Seq):
    """One of several sequences, by exclusive conditions."""

    def __init__(self, alts):
        self.alts = alts

    def guarded(self):
        return True

    def endless(self):
        return any(s.endless() for _, s in self.alts)

    def bounded(self, n):
        return EitherSeq([(g, s.bounded(n)) for g, s in self.alts])

    def items(self, I, st):
        out = []
        for g, s in self.alts:
            its = conditional(I, st, g, lambda q: s.items(I, q))
            out += [(land(g, c), x) for c, x in its or [] if land(g, c) is not FALSE]
        return out


def hold(I, st, f):
    """Keep a closure environment in memory so that its state is shared between calls."""
    if isinstance(f, (Fn, Ptr)):
        return f
    if isinstance(f, Agg) and not f.fields:
        return f
    return Ptr(I.new_alloc(st, f))


def callf(I, st, f, fty, args):
    return I.call_value(f, fty, args, st)


# ------------------------------------------------------------------ iterators
def m_next(I, inst, args, st, atys, sp):
    p = args[0]
    if isinstance(p, Ptr):
        v = I.read_ptr(st, p)
        oty = ret_ty(inst)
        if v is POISON:
            raise Unsupported('an iterator left at an unknown position')
        if isinstance(v, LoopItem):
            if v.used:
                raise Unsupported('a loop that advances its own iterator')
            I.write_ptr(st, p, LoopItem(v.value, True))
            return some(v.value, oty)
        if isinstance(v, Iter):
            r, nv = iter_next(I, st, v, oty)
            I.write_ptr(st, p, nv)
            return r
        if isinstance(v, Ptr):          # &mut I
            t = I.P.types[aty(I, inst, atys, 0)]
            return next_of(I, st, v, I.P.types[t['ty']]['ty'] if I.P.types[t['ty']]['k'] == 'ref' else None, oty)
        if isinstance(v, Union):
            raise Unsupported('joined iterator')
        ty = I.P.types[aty(I, inst, atys, 0)]['ty']
        if isinstance(v, Agg) and is_range(I, v, ty):
            return range_next(I, st, p, v, ty, oty)
        if inst['crate'] not in CRATES and isinstance(v, Opaque):
            raise Unsupported('iteration over %r' % (v,))
    if inst['body'] is None:
        raise Unsupported('no body for ' + inst['name'])
    return I.call_body(inst, inst['body'], args, st)


def next_of(I, st, p, ty, oty):
    v = I.read_ptr(st, p)
    if isinstance(v, Iter):
        r, nv = iter_next(I, st, v, oty)
        I.write_ptr(st, p, nv)
        return r
    if isinstance(v, LoopItem):
        if v.used:
            raise Unsupported('a loop that advances its own iterator')
        I.write_ptr(st, p, LoopItem(v.value, True))
        return some(v.value, oty)
    if isinstance(v, Ptr) and ty is not None:
        return next_of(I, st, v, I.P.types[ty]['ty'], oty)
    if isinstance(v, Agg) and ty is not None:
        if is_range(I, v, ty):
            return range_next(I, st, p, v, ty, oty)
        nx = I.P.find_trait('iter::Iterator::next', ty)
        if nx is not None:
            return I.call(nx, [p], st)
    raise Unsupported('iteration over %r' % (v,))


def range_next(I, st, p, v, ty, oty):
    name = norm_path(I.P.types[ty]['path']).split('::')[-1]
    if name == 'Range':
        a, b = v.fields
        c = lt(a, b)
        I.write_ptr(st, p, Agg([ite(c, add(a, const(1, a.sort)), a), b], v.ty))
        return opt(c, a, oty)
    if name == 'RangeInclusive':
        a, b, ex = v.fields
        c = land(lnot(ex), lnot(lt(b, a)))
        last = eq(a, b)
        I.write_ptr(st, p, Agg([ite(land(c, lnot(last)), add(a, const(1, a.sort)), a), b, lor(ex, land(c, last))], v.ty))
        return opt(c, a, oty)
    if name == 'RangeFrom':
        a = v.fields[0]
        I.write_ptr(st, p, Agg([add(a, const(1, a.sort))], v.ty))
        return some(a, oty)
    raise Unsupported('range ' + name)


def iter_next(I, st, v, oty):
    seq = v.seq
    if isinstance(seq, RefSeq):
        if seq.limit == 0:
            return none(oty), v
        r = next_of(I, st, seq.ptr, seq.ty, oty)
        return r, v if seq.limit is None else Iter(RefSeq(seq.ptr, seq.ty, seq.limit - 1))
    if refs_in(seq):
        if isinstance(seq, MapSeq) and isinstance(seq.inner, RefSeq) and v.i == 0 and v.j is None:
            r, nv = iter_next(I, st, Iter(seq.inner), None)
            c = is_var(r, 1)
            x = None if c is FALSE else conditional(I, st, c, lambda s: seq.app(I, s, var_field(r, 1)))
            return opt(c, x, oty), Iter(seq.over(nv.seq))
        raise Unsupported('one item of an adapted borrowed iterator')
    if seq.guarded():
        its = early(I, st, seq)
        if v.i or v.j is not None:
            its = its[v.i:v.j]
        return guarded_next(its, oty)
    n = v.j if v.j is not None else seq.known_len()
    if isinstance(seq, CharSeq) and seq.tail is not None:
        if v.i < len(seq.chars):
            return some(seq.chars[v.i], oty), Iter(seq, v.i + 1, v.j)
        if v.i == len(seq.chars):
            more = lnot(eq(seq.tail, sconst('')))
            return opt(more, sym('char', 'char'), oty), Iter(ConsumedTail(), 0)
        raise Unsupported('characters beyond the known part of a string')
    if n is None:
        if seq.endless() and not seq.guarded():
            return some(seq.get(I, st, v.i), oty), Iter(seq, v.i + 1)
        try:
            its = seq.items(I, st)
        except Unsupported:
            raise Unsupported('iterator without a known length')
        return guarded_next(its[v.i:v.j], oty)
    if v.i >= n:
        return none(oty), v
    return some(seq.get(I, st, v.i), oty), Iter(seq, v.i + 1, v.j)


class ConsumedTail(Seq):
    pass


def guarded_next(its, oty):
    its = list(its)
    if not its:
        return none(oty), Iter(EmptySeq())
    val = None
    anyg = FALSE
    rest = []
    for g, x in its:
        if anyg is not FALSE:
            gg = land(g, anyg)
            if gg is not FALSE:
                rest.append((gg, x))
        anyg = lor(anyg, g)
    for g, x in reversed(its):
        val = x if val is None else merge(g, x, val)
    return opt(anyg, val, oty), Iter(ListSeq(rest))


@trait('iter::Iterator::next')
def t_next(I, inst, args, st, atys, sp):
    return m_next(I, inst, args, st, atys, sp)


@trait('iter::DoubleEndedIterator::next_back')
def t_next_back(I, inst, args, st, atys, sp):
    p = args[0]
    v = I.read_ptr(st, p)
    if isinstance(v, Ptr):
        p = v
        v = I.read_ptr(st, p)
    oty = ret_ty(inst)
    if isinstance(v, Iter):
        n = v.j if v.j is not None else v.seq.known_len()
        if refs_in(v.seq):
            raise Unsupported('the last item of a borrowed iterator')
        if v.seq.guarded() or n is None:
            its = early(I, st, v.seq)[v.i:v.j]
            r, nv = guarded_next(its[::-1], oty)
            I.write_ptr(st, p, Iter(RevSeq(nv.seq)))
            return r
        if v.i >= n:
            return none(oty)
        I.write_ptr(st, p, Iter(v.seq, v.i, n - 1))
        return some(v.seq.get(I, st, n - 1), oty)
    ty = I.P.types[aty(I, inst, atys, 0)]['ty']
    if isinstance(v, Agg) and I.P.types[ty]['k'] == 'adt' and norm_path(I.P.types[ty]['path']) == 'ops::Range':
        a, b = v.fields
        c = lt(a, b)
        nb = ite(c, sub(b, const(1, b.sort)), b)
        I.write_ptr(st, p, Agg([a, nb], v.ty))
        return opt(c, nb, oty)
    raise Unsupported('iteration over %r' % (v,))


@trait('iter::IntoIterator::into_iter')
def t_into_iter(I, inst, args, st, atys, sp):
    v = args[0]
    ty = aty(I, inst, atys, 0)
    if isinstance(v, (Iter, LoopItem)):
        return v
    t = I.P.types[ty]
    if isinstance(v, Agg) and t['k'] == 'adt' and (t['crate'] in CRATES or is_range(I, v, ty)):
        return v
    if isinstance(v, Ptr) and t['k'] == 'ref' and t.get('mut'):
        it = I.P.types[t['ty']]
        if not (it['k'] in ('slice', 'array') or (it['k'] == 'adt' and norm_path(it['path']) in ('vec::Vec', 'boxed::Box'))):
            return v
    if isinstance(v, Map):
        return Iter(table_seq(I, st, v, 'into_iter'))
    if isinstance(v, Ptr) and t['k'] == 'ref' and isinstance(I.read_ptr(st, v), Map):
        return Iter(table_seq(I, st, I.read_ptr(st, v), 'iter'))
    if isinstance(v, Opaque):
        raise Unsupported('iteration order of a hash table')
    return Iter(into_seq(I, v, ty, st))


@reg('slice::<impl [T]>::iter', 'slice::<impl [T]>::iter_mut')
def m_slice_iter(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    return Iter(SliceSeq(p))


@trait('iter::Iterator::by_ref')
def t_by_ref(I, inst, args, st, atys, sp):
    return args[0]


@trait('iter::Iterator::map')
def t_map(I, inst, args, st, atys, sp):
    return Iter(MapSeq(arg_seq(I, inst, args, st, atys), hold(I, st, args[1]), aty(I, inst, atys, 1)))


@trait('iter::Iterator::copied', 'iter::Iterator::cloned')
def t_copied(I, inst, args, st, atys, sp):
    return Iter(DerefSeq(arg_seq(I, inst, args, st, atys)))


class DerefSeq(MapSeq):
    def __init__(self, inner):
        self.inner = inner
        self.f = self.fty = None

    def app(self, I, st, v):
        return clone_value(I, st, I.read_ptr(st, v))


@trait('iter::Iterator::rev')
def t_rev(I, inst, args, st, atys, sp):
    return Iter(RevSeq(arg_seq(I, inst, args, st, atys)))


def tmp(I, st, v):
    return Ptr(I.new_alloc(st, v))


@trait('iter::Iterator::filter')
def t_filter(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)

    def keep(I, s, v):
        return I.scalar(callf(I, s, f, fty, [tmp(I, s, v)])), v
    return Iter(FilterSeq(arg_seq(I, inst, args, st, atys), keep))


@trait('iter::Iterator::filter_map')
def t_filter_map(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)

    def keep(I, s, v):
        r = callf(I, s, f, fty, [v])
        c = is_var(r, 1)
        return c, (var_field(r, 1) if c is not FALSE else None)
    return Iter(FilterSeq(arg_seq(I, inst, args, st, atys), keep))


def prefix_seq(I, inst, args, st, atys, until):
    """take_while / map_while / skip_while: guards from the items before."""
    out = []
    alive = TRUE
    for g, c, w in tested(I, st, early(I, st, arg_seq(I, inst, args, st, atys)), until, False):
        ok = land(alive, c)
        out.append((land(alive, g, c), w))
        alive = land(alive, lor(lnot(g), c)) if g is not TRUE else ok
        if alive is FALSE:
            break
    return Iter(ListSeq([(g, v) for g, v in out if g is not FALSE]))


@trait('iter::Iterator::take_while')
def t_take_while(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    return prefix_seq(I, inst, args, st, atys, lambda s, v: (I.scalar(callf(I, s, f, fty, [tmp(I, s, v)])), v))


@trait('iter::Iterator::map_while')
def t_map_while(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)

    def u(s, v):
        r = callf(I, s, f, fty, [v])
        c = is_var(r, 1)
        return c, (var_field(r, 1) if c is not FALSE else UNIT)
    return prefix_seq(I, inst, args, st, atys, u)


@trait('iter::Iterator::skip_while')
def t_skip_while(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    out = []
    started = FALSE
    its = arg_seq(I, inst, args, st, atys).items(I, st)
    tests = tested(I, st, its, lambda s, v: (I.scalar(callf(I, s, f, fty, [tmp(I, s, v)])), v), False)
    for k, (g, v) in enumerate(its):
        if k < len(tests):
            started = lor(started, land(g, lnot(tests[k][1])))
        gg = land(g, started)
        if gg is not FALSE:
            out.append((gg, v))
    return Iter(ListSeq(out))


@trait('iter::Iterator::chain')
def t_chain(I, inst, args, st, atys, sp):
    return Iter(ChainSeq(arg_seq(I, inst, args, st, atys), into_seq(I, args[1], aty(I, inst, atys, 1), st)))


@trait('iter::Iterator::zip')
@reg('iter::zip')
def t_zip(I, inst, args, st, atys, sp):
    return Iter(ZipSeq(whole(into_seq(I, args[0], aty(I, inst, atys, 0), st)), whole(into_seq(I, args[1], aty(I, inst, atys, 1), st))))


def whole(s):
    if refs_in(s):
        raise Unsupported('part of a borrowed iterator')
    return s


@trait('iter::Iterator::enumerate')
def t_enumerate(I, inst, args, st, atys, sp):
    return Iter(EnumSeq(arg_seq(I, inst, args, st, atys)))


@trait('iter::Iterator::take')
def t_take(I, inst, args, st, atys, sp):
    s = arg_seq(I, inst, args, st, atys)
    n = args[1]
    if not n.is_const:
        m = most(I, st, n)
        if is_unbounded(s):
            s = s.bounded(m)
        whole(s)
        return Iter(take_guarded(s.items(I, st), n))
    if isinstance(s, RefSeq):
        return Iter(RefSeq(s.ptr, s.ty, n.data if s.limit is None else min(n.data, s.limit)))
    if type(s) in (MapSeq, DerefSeq, InspectSeq) and isinstance(s.inner, RefSeq):
        q = s.inner
        return Iter(s.over(RefSeq(q.ptr, q.ty, n.data if q.limit is None else min(n.data, q.limit))))
    whole(s)
    if is_unbounded(s):
        return Iter(s.bounded(n.data))
    if s.guarded():
        return Iter(take_guarded(s.items(I, st), n.data))
    if isinstance(s, CharSeq) and n.data <= len(s.chars):
        return Iter(CharSeq(s.chars[:n.data]))
    return Iter(SubSeq(s, 0, n.data))


def is_unbounded(s):
    return s.endless()


def most(I, st, n, limit=5000):
    """The largest value a number can have."""
    if n.is_const:
        return n.data
    if n.syms:
        raise Unsupported('an arbitrary number of items')
    t = force(n)
    m = int(t.data if t.is_const else t.data[1].max())
    if m > limit:
        raise Unsupported('a large number of items')
    return m


def take_guarded(its, n):
    out = []
    cnt = usz(0)
    n = n if isinstance(n, Term) else usz(n)
    for g, v in its:
        gg = land(g, lt(cnt, n))
        if gg is not FALSE:
            out.append((gg, v))
        cnt = add(cnt, ite(g, usz(1), usz(0)))
    return ListSeq(out)


@trait('iter::Iterator::skip')
def t_skip(I, inst, args, st, atys, sp):
    s = arg_seq(I, inst, args, st, atys)
    n = args[1]
    if refs_in(s):
        raise Unsupported('skip in a borrowed iterator')
    if not n.is_const or s.guarded():
        out = []
        cnt = usz(0)
        for g, v in s.items(I, st):
            gg = land(g, lnot(lt(cnt, n)))
            if gg is not FALSE:
                out.append((gg, v))
            cnt = add(cnt, ite(g, usz(1), usz(0)))
        return Iter(ListSeq(out))
    if isinstance(s, CountFrom):
        return Iter(CountFrom(add(s.a, const(n.data, s.a.sort))))
    return Iter(SubSeq(s, n.data, None))


@trait('iter::Iterator::step_by')
def t_step_by(I, inst, args, st, atys, sp):
    if not args[1].is_const or args[1].data == 0:
        raise Unsupported('step')
    return Iter(StepSeq(whole(arg_seq(I, inst, args, st, atys)), args[1].data))


@trait('iter::Iterator::inspect')
def t_inspect(I, inst, args, st, atys, sp):
    return Iter(InspectSeq(arg_seq(I, inst, args, st, atys), hold(I, st, args[1]), aty(I, inst, atys, 1)))


class InspectSeq(MapSeq):
    def app(self, I, st, v):
        I.call_value(self.f, self.fty, [tmp(I, st, v)], st)
        return v


@trait('iter::Iterator::fuse', 'iter::Iterator::peekable')
def t_fuse(I, inst, args, st, atys, sp):
    return Iter(arg_seq(I, inst, args, st, atys))


@reg('iter::Peekable::<I>::peek')
def m_peek(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    if not isinstance(v, Iter):
        raise Unsupported('peek')
    r, _ = iter_next(I, st, v, None)
    c = is_var(r, 1)
    return opt(c, tmp(I, st, var_field(r, 1)) if c is not FALSE else None, ret_ty(inst))


@trait('iter::Iterator::flat_map')
def t_flat_map(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    t = I.P.types[inst['targs'][1]] if len(inst['targs']) > 1 else None
    uty = flat_ty(I, inst)

    def sub(I, s, v):
        r = callf(I, s, f, fty, [v])
        return into_seq(I, r, uty, s)
    return Iter(FlatMapSeq(arg_seq(I, inst, args, st, atys), sub))


def flat_ty(I, inst):
    # type parameters of flat_map<U, F>: self first, then U, F
    for k in inst['targs'][1:]:
        t = I.P.types[k]
        if t['k'] not in ('closure', 'fndef', 'fnptr'):
            return k
    raise Unsupported('flat_map result type')


@trait('iter::Iterator::flatten')
def t_flatten(I, inst, args, st, atys, sp):
    s = arg_seq(I, inst, args, st, atys)
    its = s.items(I, st)
    out = []
    for g, v in its:
        if isinstance(v, Enum):
            k = 1
            t = I.P.types[v.ty]['path'] if v.ty is not None else 'Option'
            k = 0 if 'Result' in t else 1
            c = is_var(v, k)
            if c is not FALSE:
                out.append((land(g, c), var_field(v, k)))
        elif isinstance(v, (Arr, Vec, Stack)):
            sq = into_seq_noty(I, v)
            out += [(land(g, h), x) for h, x in sq.items(I, st)]
        elif isinstance(v, Iter):
            out += [(land(g, h), x) for h, x in seq_of(I, v, None, st).items(I, st)]
        elif isinstance(v, Ptr):
            out += [(land(g, h), x) for h, x in SliceSeq(as_slice(I, st, v)).items(I, st)]
        else:
            raise Unsupported('flatten')
    return Iter(ListSeq(out))


def into_seq_noty(I, v):
    if isinstance(v, Arr):
        return ListSeq([(TRUE, x) for x in v.items])
    if isinstance(v, Stack):
        return StackSeq(v.dim, v.item)
    return seq_of_content(I, v.content)


# ---- consumers
def each(I, inst, args, st, atys, i=0, limit=20000):
    s = arg_seq(I, inst, args, st, atys, i)
    n = s.known_len()
    if n is not None and n > limit:
        raise Unsupported('long iteration')
    return s.items(I, st)


def self_by_ref(I, inst, args, st, atys):
    """Consumers taking &mut self (any, all, find, position, try_fold, nth): the iterator itself."""
    ty = aty(I, inst, atys, 0)
    t = I.P.types[ty]
    v = I.read_ptr(st, args[0])
    return seq_of(I, v, t['ty'], st), t['ty']


def mark_consumed(I, st, p):
    """After a short-circuiting consumer the position is not tracked."""
    v = I.read_ptr(st, p)
    if isinstance(v, Iter):
        poison_refs(I, st, v.seq)
        I.write_ptr(st, p, Iter(ConsumedTail()))
    elif isinstance(v, Ptr):
        mark_consumed(I, st, v)
    else:
        I.write_ptr(st, p, POISON)


@trait('iter::Iterator::fold')
def t_fold(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[2]), aty(I, inst, atys, 2)
    s = arg_seq(I, inst, args, st, atys)
    acc = args[1]
    for g, v in s.items(I, st):
        acc = fold_step(I, st, g, acc, lambda s_, a: callf(I, s_, f, fty, [a, v]))
    return acc


def fold_step(I, st, g, acc, f):
    if g is TRUE:
        return f(st, acc)
    r = conditional(I, st, g, lambda s: f(s, acc))
    return acc if r is None else merge(g, r, acc)


@trait('iter::Iterator::for_each')
def t_for_each(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    for g, v in arg_seq(I, inst, args, st, atys).items(I, st):
        conditional(I, st, g, lambda s: callf(I, s, f, fty, [v]))
    return UNIT


@trait('iter::Iterator::reduce')
def t_reduce(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    its = each(I, inst, args, st, atys)
    have, acc = FALSE, None
    for g, v in its:
        if acc is None:
            have, acc = g, v
            continue
        r = conditional(I, st, land(have, g), lambda s: callf(I, s, f, fty, [acc, v]))
        acc = merge(land(have, g), r, merge(have, acc, v)) if r is not None else merge(have, acc, v)
        have = lor(have, g)
    if acc is None:
        return none(ret_ty(inst))
    return opt(have, acc, ret_ty(inst))


@trait('iter::Iterator::count')
def t_count(I, inst, args, st, atys, sp):
    s = arg_seq(I, inst, args, st, atys)
    if isinstance(s, CharSeq):
        n = usz(len(s.chars))
        return add(n, mk('nchars', USIZE, s.tail)) if s.tail is not None else n
    if not s.guarded() and s.known_len() is not None:
        if has_effects(s):
            s.items(I, st)
        return usz(s.known_len())
    r = usz(0)
    for g, v in s.items(I, st):
        r = add(r, ite(g, usz(1), usz(0)))
    return r


def has_effects(s):
    return isinstance(s, (MapSeq, FilterSeq)) and not isinstance(s, DerefSeq) and not isinstance(s.inner, EmptySeq) \
        and s.known_len() <= 64


@trait('iter::ExactSizeIterator::len')
def t_len(I, inst, args, st, atys, sp):
    p = args[0]
    v = I.read_ptr(st, p)
    if isinstance(v, Iter):
        n = SubSeq(v.seq, v.i, v.j).known_len()
        if n is None:
            raise Unsupported('length of a filtered sequence')
        return usz(n)
    if inst['body'] is not None and inst['np'] == 'iter::ExactSizeIterator::len':
        return I.call_body(inst, inst['body'], args, st)
    if isinstance(v, Agg):
        ty = I.P.types[aty(I, inst, atys, 0)]['ty']
        if is_range(I, v, ty):
            n = range_seq(I, v, ty).known_len()
            if n is not None:
                return usz(n)
    raise Unsupported('length of %r' % (v,))


@trait('iter::Iterator::size_hint')
def t_size_hint(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    if isinstance(v, Iter):
        n = SubSeq(v.seq, v.i, v.j).known_len()
        if n is not None:
            rt = ret_ty(inst)
            return Agg([usz(n), some(usz(n), I.P.types[rt]['tys'][1] if rt is not None else None)])
        n = getattr(v.seq, 'at_most', lambda: None)()
        if n is not None and v.i == 0 and v.j is None:
            rt = ret_ty(inst)
            return Agg([usz(0), some(usz(n), I.P.types[rt]['tys'][1] if rt is not None else None)])
    raise Unsupported('size hint of %r' % (v,))


def quant(I, inst, args, st, atys, f0):
    s, ty = self_by_ref(I, inst, args, st, atys)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    n = s.known_len()
    if n is not None and n > 64 and not s.guarded():
        d, g, v = s.lift(I, st)
        snap = dict(st.mem)
        c = I.scalar(callf(I, st, f, fty, [v]))
        if changed(st, snap):
            raise Unsupported('a long search with side effects')
        mark_consumed(I, st, args[0])
        return None, (d, g, c)
    with any_order(I):
        its = early(I, st, s)
    conds = [(g, c) for g, c, _ in tested(I, st, its, lambda s_, v: (I.scalar(callf(I, s_, f, fty, [v])), None), f0)]
    mark_consumed(I, st, args[0])
    return conds, None


def over_dim(d, g, c):
    t = force(land(g, c))
    if t.is_const:
        return t
    dims, arr = t.data
    if d not in dims:
        return t
    r = arr.any(axis=dims.index(d))
    od = [x for x in dims if x is not d]
    return tab(od, r, 'bool') if od else boolc(bool(r))


@trait('iter::Iterator::any')
def t_any(I, inst, args, st, atys, sp):
    conds, big = quant(I, inst, args, st, atys, True)
    if big:
        return over_dim(*big)
    return lor(FALSE, *[land(g, c) for g, c in conds])


@trait('iter::Iterator::all')
def t_all(I, inst, args, st, atys, sp):
    conds, big = quant(I, inst, args, st, atys, False)
    if big:
        return lnot(over_dim(big[0], big[1], lnot(big[2])))
    return land(TRUE, *[lor(lnot(g), c) for g, c in conds])


@trait('iter::Iterator::find')
def t_find(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    return first_such(I, st, args[0], early(I, st, s), lambda q, v: (I.scalar(callf(I, q, f, fty, [tmp(I, q, v)])), v), ret_ty(inst))


@trait('iter::Iterator::find_map')
def t_find_map(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)

    def u(q, v):
        r = callf(I, q, f, fty, [v])
        c = is_var(r, 1)
        return c, (var_field(r, 1) if c is not FALSE else None)
    return first_such(I, st, args[0], early(I, st, s), u, ret_ty(inst))


@trait('iter::Iterator::position')
def t_position(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    its, cnt = [], usz(0)
    for g, v in early(I, st, s):
        its.append((g, (cnt, v)))
        cnt = add(cnt, ite(g, usz(1), usz(0)))
    return first_such(I, st, args[0], its, lambda q, iv: (I.scalar(callf(I, q, f, fty, [iv[1]])), iv[0]), ret_ty(inst))


def first_such(I, st, p, its, test, oty):
    hits = []
    for g, c, w in tested(I, st, its, test, True):
        c = land(g, c)
        if c is not FALSE:
            hits.append((c, w))
        if c is TRUE:
            break
    mark_consumed(I, st, p)
    r, _ = guarded_next(hits, oty)
    return r


@trait('iter::Iterator::nth')
def t_nth(I, inst, args, st, atys, sp):
    n = args[1]
    ty = I.P.types[aty(I, inst, atys, 0)]['ty']
    if not n.is_const:
        s = seq_of(I, I.read_ptr(st, args[0]), ty, st)
        if is_unbounded(s):
            s = s.bounded(most(I, st, n) + 1)
        hits, cnt = [], usz(0)
        for g, v in early(I, st, s):
            c = land(g, eq(cnt, n))
            if c is not FALSE:
                hits.append((c, v))
            cnt = add(cnt, ite(g, usz(1), usz(0)))
        mark_consumed(I, st, args[0])
        return guarded_next(hits, ret_ty(inst))[0]
    r = None
    for _ in range(n.data + 1):
        r = next_of(I, st, args[0], ty, ret_ty(inst))
    return r


@trait('iter::Iterator::last')
def t_last(I, inst, args, st, atys, sp):
    s = arg_seq(I, inst, args, st, atys)
    r, _ = guarded_next(s.items(I, st)[::-1], ret_ty(inst))
    return r


def vless(I, st, a, b, ty):
    """a < b by the type's Ord."""
    if isinstance(a, Term):
        return I.less(a, b)
    o = vcmp(I, st, a, b, ty)
    return is_var(o, 0)


def vcmp(I, st, a, b, ty):
    t = I.P.types[ty]
    if isinstance(a, Term) and isinstance(b, Term):
        return I.ordering(I.less(a, b), eq(a, b))
    if t['k'] == 'ref':
        return vcmp(I, st, I.read_ptr(st, a), I.read_ptr(st, b), t['ty'])
    f = I.P.find_trait('cmp::Ord::cmp', ty)
    if f is None:
        f = I.P.find_trait('cmp::PartialOrd::partial_cmp', ty)
        if f is None:
            raise Unsupported('ordering of %s' % t['name'])
        r = I.call(f, [tmp(I, st, a), tmp(I, st, b)], st)
        return var_field(r, 1)
    return I.call(f, [tmp(I, st, a), tmp(I, st, b)], st)


def item_ty(I, inst):
    """Item type of an Option<Item>-returning consumer."""
    rt = ret_ty(inst)
    t = I.P.types[rt]
    return t['args'][0]


def extremum(I, inst, st, its, better):
    have, acc = FALSE, None
    for g, v in its:
        if acc is None:
            have, acc = g, v
            continue
        take = land(g, lor(lnot(have), better(v, acc)))
        acc = merge(take, v, acc)
        have = lor(have, g)
    if acc is None:
        return none(ret_ty(inst))
    return opt(have, acc, ret_ty(inst))


@trait('iter::Iterator::max')
def t_imax(I, inst, args, st, atys, sp):
    r = fold_extremum(I, inst, args, st, atys, 'max')
    if r is not None:
        return r
    ty = item_ty(I, inst)
    return extremum(I, inst, st, each(I, inst, args, st, atys), lambda v, a: lnot(vless(I, st, v, a, ty)))


@trait('iter::Iterator::min')
def t_imin(I, inst, args, st, atys, sp):
    ty = item_ty(I, inst)
    return extremum(I, inst, st, each(I, inst, args, st, atys), lambda v, a: vless(I, st, v, a, ty))


def fold_extremum(I, inst, args, st, atys, which):
    return None


@trait('iter::Iterator::max_by_key', 'iter::Iterator::min_by_key')
def t_maxkey(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    kt = [k for k in inst['targs'][1:] if I.P.types[k]['k'] not in ('closure', 'fndef')][0]
    its = [(g, Agg([callf(I, st, f, fty, [tmp(I, st, v)]), v])) for g, v in each(I, inst, args, st, atys)]
    if inst['nt'].endswith('max_by_key'):
        r = extremum(I, inst, st, its, lambda v, a: lnot(vless(I, st, v.fields[0], a.fields[0], kt)))
    else:
        r = extremum(I, inst, st, its, lambda v, a: vless(I, st, v.fields[0], a.fields[0], kt))
    return Enum(r.disc, {k: tuple(x.fields[1] for x in fs) for k, fs in r.vs.items()}, r.ty)


@trait('iter::Iterator::max_by', 'iter::Iterator::min_by')
def t_maxby(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    is_max = inst['nt'].endswith('max_by')

    def better(v, a):
        o = callf(I, st, f, fty, [tmp(I, st, a), tmp(I, st, v)])    # compare(acc, v)
        return lnot(is_var(o, 2)) if is_max else is_var(o, 2)
    return extremum(I, inst, st, each(I, inst, args, st, atys), better)


@trait('iter::Iterator::sum', 'iter::Iterator::product')
def t_sum(I, inst, args, st, atys, sp):
    op = 'add' if inst['nt'].endswith('sum') else 'mul'
    rt = ret_ty(inst)
    s = I.sort_of(rt)
    if not isinstance(s, tuple):
        raise Unsupported('sum of %s' % I.P.types[rt]['name'])
    acc = identity(op, s)
    for g, v in each(I, inst, args, st, atys):
        if isinstance(v, Ptr):
            v = I.read_ptr(st, v)
        v = I.scalar(v)
        bad = land(g, mk('ovf_' + op, 'bool', acc, v), st.path)
        if not I.surely_false(bad):
            I.event(bad, 'overflow ' + op.capitalize(), inst['name'], sp)
        acc = ite(g, mk_ac(op, s, (acc, v)), acc)
    return acc


@trait('iter::Iterator::eq')
def t_iter_eq(I, inst, args, st, atys, sp):
    a = arg_seq(I, inst, args, st, atys)
    b = into_seq(I, args[1], aty(I, inst, atys, 1), st)
    xs, ys = a.items(I, st), b.items(I, st)
    if a.guarded() or b.guarded():
        raise Unsupported('comparison of filtered sequences')
    if len(xs) != len(ys):
        return FALSE
    r = TRUE
    poison_refs(I, st, a)
    poison_refs(I, st, b)
    for (_, x), (_, y) in zip(xs, ys):
        r = land(r, veq_untyped(I, st, x, y))
    return r


@trait('iter::Iterator::try_fold', 'iter::Iterator::try_for_each')
def t_try_fold(I, inst, args, st, atys, sp):
    rt = ret_ty(inst)
    t = I.P.types[rt]
    name = norm_path(t.get('path', ''))
    if name not in ('option::Option', 'result::Result', 'ops::ControlFlow', 'ops::control_flow::ControlFlow'):
        raise Unsupported('try_fold of ' + t['name'])
    ok = 1 if name == 'option::Option' else 0
    s, ty = self_by_ref(I, inst, args, st, atys)
    each_ = inst['nt'].endswith('try_for_each')
    f, fty = (hold(I, st, args[1]), aty(I, inst, atys, 1)) if each_ else (hold(I, st, args[2]), aty(I, inst, atys, 2))
    acc = variant(ok, [UNIT if each_ else args[1]], rt)
    for g, v in early(I, st, s):
        go = land(g, is_var(acc, ok))
        cur = var_field(acc, ok)
        r = conditional(I, st, go, lambda s_: callf(I, s_, f, fty, [v] if each_ else [cur, v]))
        if r is not None:
            acc = merge(go, r, acc)
        if is_var(acc, ok) is FALSE:
            break
    mark_consumed(I, st, args[0])
    return acc


# ---- collecting
def gather(I, st, s):
    """Sequence -> container content."""
    n = s.known_len()
    if s.guarded() or n is None:
        if n is not None and n <= SHORTLIST or isinstance(s, (ListSeq, LogSeq)):
            its = s.items(I, st)
            if all(g is TRUE for g, _ in its):
                return Arr([v for _, v in its])
            return Log([Entry((), g, None, v, None) for g, v in its])
        d, g, v = s.lift(I, st)
        if d.size == 0:
            return Arr(())
        if g is TRUE:
            return Stack(d, v)
        return Log([Entry((I.tick(), d), g, None, v, None)])
    if n <= SHORTLIST:
        return Arr([v for _, v in s.items(I, st)])
    try:
        d, g, v = s.lift(I, st)
        if g is TRUE:
            return Stack(d, v)
        return Log([Entry((I.tick(), d), g, None, v, None)])
    except Unsupported:
        return Arr([v for _, v in s.items(I, st)])


SHORTLIST = 16


def collect_into(I, st, s, ty):
    t = I.P.types[ty]
    if t['k'] == 'adt':
        p = norm_path(t['path'])
        if p in ('vec::Vec', 'collections::VecDeque'):
            return Vec(gather(I, st, s))
        if p == 'boxed::Box':
            it = I.P.types[t['args'][0]]
            if it['k'] == 'slice':
                return Vec(gather(I, st, s))
            if it['k'] == 'str':
                return Str(collect_str(I, st, s))
        if p == 'string::String':
            return Str(collect_str(I, st, s))
        if p in ('result::Result', 'option::Option'):
            ok = 0 if p == 'result::Result' else 1
            its = s.items(I, st)
            alive = TRUE
            good = []
            bads = []
            for g, v in its:
                c = is_var(v, ok)
                if ok == 0:
                    b = land(alive, g, is_var(v, 1))
                    if b is not FALSE:
                        bads.append((b, var_field(v, 1)))
                if c is not FALSE:
                    good.append((land(g, c), var_field(v, ok)))
                alive = land(alive, lor(lnot(g), c))
            inner = None
            if alive is not FALSE:
                # items are only looked at when every one is good
                gs = [(g, v) for g, v in good]
                if all(s_g is TRUE for s_g, _ in its):
                    gs = [(TRUE, v) for _, v in gs]
                inner = collect_into(I, st, ListSeq(gs), t['args'][0])
            vs = {}
            if inner is not None:
                vs[ok] = (inner,)
            if ok == 0 and bads:
                e = None
                for g, v in reversed(bads):
                    e = v if e is None else merge(g, v, e)
                vs[1] = (e,)
            elif ok == 1 and alive is not TRUE:
                vs[0] = ()
            if alive is TRUE:
                return variant(ok, vs[ok], ty)
            return Enum(ite(alive, const(ok, VIDX), const(1 - ok, VIDX)), vs, ty)
        if p in ('collections::HashSet', 'collections::BTreeSet'):
            return Map(map_entries(I, st, s, 'set'), 'bset' if 'BTree' in p else 'set')
        if p in ('collections::HashMap', 'collections::BTreeMap'):
            return Map(map_entries(I, st, s, 'map'), 'bmap' if 'BTree' in p else 'map')
    if t['k'] == 'tuple' and not t['tys']:
        s.items(I, st)
        return UNIT
    raise Unsupported('collecting into %s' % t['name'])


def map_entries(I, st, s, kind):
    """The entries a table gets from a sequence, whose order does not matter when it comes from a table."""
    def entry(time, g, x):
        if kind.endswith('set'):
            return Entry(time, g, x, None, None)
        k, v = x.fields
        if isinstance(k, Ptr) and not isinstance(k.alloc, str):
            k = I.read_ptr(st, k)
        if isinstance(v, Ptr) and v.meta is None:
            v = I.read_ptr(st, v)
        return Entry(time, g, k, v, None)
    n = s.known_len()
    with any_order(I):
        if n is not None and n > 256:
            try:
                d, g, v = s.lift(I, st)
                return [entry((I.tick(), d), g, v)] if d.size else []
            except Unsupported:
                pass
        return [entry((I.tick(),), g, v) for g, v in s.items(I, st)]


class any_order:
    """Within this, the order of the items of a table is immaterial."""
    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.old = getattr(self.I, 'order_free', False)
        self.I.order_free = True

    def __exit__(self, *a):
        self.I.order_free = self.old


class TableSeq(StackSeq):
    """The items of a hash table: their order is unknown."""

    def ask(self, I):
        if not getattr(I, 'order_free', False):
            raise Unsupported('iteration order of a hash table')

    def get(self, I, st, i):
        self.ask(I)
        return StackSeq.get(self, I, st, i)

    def lift(self, I, st):
        self.ask(I)
        return StackSeq.lift(self, I, st)

    def vmap(self, f):
        return TableSeq(self.dim, vmap(self.item, f))


def table_items(I, st, m):
    """(dim, key, value) of a table that does not depend on inputs."""
    try:
        ml = I.finalize_map(m)
    except Unsupported as e:
        raise Unsupported('iteration order of a hash table: %s' % e)
    d = Dim('entry', ml.size)
    it = iter(ml.cols)
    if ml.size == 0:
        return d, None, None
    return d, tab([d], ml.keys.astype(dtype(ml.ksort)), ml.ksort), \
        None if ml.template is None else fill_table(ml.template, lambda sort: tab([d], next(it).vals, sort))


def fill_table(v, f):
    from interp import fill
    return fill(v, f)


def collect_str(I, st, s):
    r = sconst('')
    if isinstance(s, CharSeq):
        return concat([chrterm(c) for c in s.chars] + ([s.tail] if s.tail is not None else []))
    for g, v in s.items(I, st):
        x = str_piece(I, st, v)
        r = concat([r, ite(g, x, sconst(''))])
    return r


def str_piece(I, st, v):
    if isinstance(v, Ptr):
        v = I.read_ptr(st, v)
    if isinstance(v, (Str, StrRef)):
        return v.term
    if isinstance(v, Term) and v.sort == 'char':
        return chrterm(v)
    if isinstance(v, Union):
        r = None
        for g, x in reversed(v.alts):
            y = str_piece(I, st, x)
            r = y if r is None else ite(g, y, r)
        return r
    raise Unsupported('string piece %r' % (v,))


@trait('iter::Iterator::collect')
def t_collect(I, inst, args, st, atys, sp):
    return collect_into(I, st, arg_seq(I, inst, args, st, atys), ret_ty(inst))


@trait('iter::FromIterator::from_iter')
def t_from_iter(I, inst, args, st, atys, sp):
    return collect_into(I, st, into_seq(I, args[0], aty(I, inst, atys, 0), st), ret_ty(inst))


@trait('iter::Extend::extend')
def t_extend(I, inst, args, st, atys, sp):
    s = into_seq(I, args[1], aty(I, inst, atys, 1), st)
    v = I.read_ptr(st, args[0])
    if isinstance(v, Vec):
        n = s.known_len()
        if n is not None and n > SHORTLIST:
            d, g, x = s.lift(I, st)
            I.write_ptr(st, args[0], vec_append(I, v, Log([Entry((I.tick(), d), g, None, x, None)])))
            return UNIT
        ref = isinstance(I.P.types[aty(I, inst, atys, 1)], dict)
        for g, x in s.items(I, st):
            if isinstance(x, Ptr) and want_copy(I, inst):
                x = I.read_ptr(st, x)
            conditional(I, st, g, lambda q: push(I, q, args[0], x))
        return UNIT
    if isinstance(v, Str):
        I.write_ptr(st, args[0], Str(concat([v.term, collect_str(I, st, s)])))
        return UNIT
    if isinstance(v, Map):
        v = type(v)(v.entries + tuple(map_entries(I, st, s, v.kind)), v.kind)
        I.write_ptr(st, args[0], v)
        return UNIT
    raise Unsupported('extend')


def want_copy(I, inst):
    return 'Extend<&' in inst['np']


def vec_append(I, v, log):
    c = v.content
    from interp import OpenLog
    base = c if isinstance(c, Log) else as_log(c)
    return Vec(type(base)(base.entries + log.entries))


# ------------------------------------------------------------------ itertools
@trait('itertools::Itertools::cartesian_product')
def t_cart(I, inst, args, st, atys, sp):
    return Iter(ProductSeq(arg_seq(I, inst, args, st, atys), into_seq(I, args[1], aty(I, inst, atys, 1), st)))


@trait('itertools::Itertools::collect_vec')
def t_collect_vec(I, inst, args, st, atys, sp):
    return Vec(gather(I, st, arg_seq(I, inst, args, st, atys)))


@trait('itertools::Itertools::join')
def t_join(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    s = seq_of(I, v, I.P.types[aty(I, inst, atys, 0)]['ty'], st)
    sep = str_piece(I, st, args[1])
    its = s.items(I, st)
    ity = None
    return Str(join_terms(its, sep, lambda x: display_term(I, st, x, item_type_hint(I, inst, x))))


def item_type_hint(I, inst, x):
    v = x
    if isinstance(v, (Agg, Enum)) and v.ty is not None:
        return v.ty
    return None


def join_terms(its, sep, f):
    r = sconst('')
    before = FALSE
    for g, x in its:
        t = f(x)
        r = concat([r, ite(g, concat([ite(before, sep, sconst('')), t]), sconst(''))])
        before = lor(before, g)
    return r


@reg('slice::<impl [T]>::join', 'slice::<impl [T]>::concat')
def m_join(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    c = I.read_path(I.getmem(st, p.alloc), p.path)
    s = seq_of_content(I, c)
    sep = str_piece(I, st, args[1]) if len(args) > 1 else sconst('')
    its = s.items(I, st)
    if its and not isinstance(unref(I, st, its[0][1]), (Str, StrRef)):
        raise Unsupported('join of slices')
    return Str(join_terms(its, sep, lambda x: str_piece(I, st, x)))


def unref(I, st, v):
    return I.read_ptr(st, v) if isinstance(v, Ptr) else v


def dup_guards(I, st, its):
    """For each item: how many earlier equal items (as conditions)."""
    out = []
    for k, (g, v) in enumerate(its):
        eqs = [land(its[m][0], veq_untyped(I, st, its[m][1], v)) for m in range(k)]
        out.append((g, v, eqs))
    return out


@trait('itertools::Itertools::duplicates')
def t_duplicates(I, inst, args, st, atys, sp):
    its = each(I, inst, args, st, atys)
    out = []
    for g, v, eqs in dup_guards(I, st, its):
        c = FALSE
        for i in range(len(eqs)):
            c = lor(c, land(eqs[i], *[lnot(e) for j, e in enumerate(eqs) if j != i]))
        gg = land(g, c)
        if gg is not FALSE:
            out.append((gg, v))
    return Iter(ListSeq(out))


@trait('itertools::Itertools::unique')
def t_unique(I, inst, args, st, atys, sp):
    its = each(I, inst, args, st, atys)
    out = []
    for g, v, eqs in dup_guards(I, st, its):
        gg = land(g, *[lnot(e) for e in eqs])
        if gg is not FALSE:
            out.append((gg, v))
    return Iter(ListSeq(out))


@trait('itertools::Itertools::all_unique')
def t_all_unique(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    r = TRUE
    for g, v, eqs in dup_guards(I, st, s.items(I, st)):
        r = land(r, lor(lnot(g), land(TRUE, *[lnot(e) for e in eqs])))
    mark_consumed(I, st, args[0])
    return r


@trait('itertools::Itertools::all_equal')
def t_all_equal(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    its = s.items(I, st)
    if any(g is not TRUE for g, _ in its):
        raise Unsupported('all_equal of a filtered sequence')
    r = TRUE
    for g, v in its[1:]:
        r = land(r, veq_untyped(I, st, its[0][1], v))
    return r


@trait('itertools::Itertools::combinations')
def t_combinations(I, inst, args, st, atys, sp):
    import itertools
    its = each(I, inst, args, st, atys)
    k = args[1]
    if not k.is_const or any(g is not TRUE for g, _ in its):
        raise Unsupported('combinations of a filtered sequence')
    return Iter(ListSeq([(TRUE, Vec(Arr(c))) for c in itertools.combinations([v for _, v in its], k.data)]))


@trait('itertools::Itertools::tuple_combinations')
def t_tuple_combinations(I, inst, args, st, atys, sp):
    import itertools
    its = each(I, inst, args, st, atys)
    if any(g is not TRUE for g, _ in its):
        raise Unsupported('combinations of a filtered sequence')
    k = None
    for x in inst['targs'][1:]:
        if I.P.types[x]['k'] == 'tuple':
            k = len(I.P.types[x]['tys'])
    if k is None:
        raise Unsupported('tuple_combinations')
    return Iter(ListSeq([(TRUE, Agg(c)) for c in itertools.combinations([v for _, v in its], k)]))


def t_counts(I, inst, args, st, atys, sp):
    return Opaque('hashorder', None)


# ------------------------------------------------------------------ Vec, slices, arrays, Box
@reg('vec::Vec::<T>::new', 'vec::Vec::<T>::with_capacity', 'vec::Vec::<T, A>::new_in')
def m_vec_new(I, inst, args, st, atys, sp):
    return Vec(Arr(()))


def push(I, st, p, x):
    v = I.read_ptr(st, p)
    if not isinstance(v, Vec):
        raise Unsupported('push onto %r' % (v,))
    c = v.content
    if isinstance(c, Arr):
        n = Vec(Arr(c.items + (x,)))
    elif isinstance(c, Perm):
        n = Vec(Perm(c.origin, c.extra + ('push',)))
    else:
        base = c if isinstance(c, Log) else as_log(c)
        n = Vec(type(base)(base.entries + (Entry((I.tick(),), TRUE, None, x, None),)))
    I.write_ptr(st, p, n)


@reg('vec::Vec::<T, A>::push', 'collections::VecDeque::<T, A>::push_back', '<vec::Vec<T, A> as iter::Extend<T>>::extend_one')
def m_vec_push(I, inst, args, st, atys, sp):
    push(I, st, args[0], args[1])
    return UNIT


@reg('vec::Vec::<T, A>::extend_from_slice')
def m_extend_from_slice(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[1]))
    for x in slice_elems(I, st, p):
        push(I, st, args[0], x)
    return UNIT


@reg('vec::Vec::<T, A>::pop')
def m_vec_pop(I, inst, args, st, atys, sp):
    c = I.read_ptr(st, args[0]).content
    if isinstance(c, Perm):
        I.write_ptr(st, args[0], Vec(Perm(c.origin, c.extra + ('pop',))))
        return some(sym('card', I32))
    return list_edit(I, st, args[0], 'pop', args, inst, sp)


def as_arr(c):
    if isinstance(c, Stack):
        return Arr([vrestrict(c.item, {c.dim: i}) for i in range(c.dim.size)])
    return c


@reg('vec::Vec::<T, A>::truncate', 'vec::Vec::<T, A>::remove', 'vec::Vec::<T, A>::swap_remove',
     'vec::Vec::<T, A>::clear', 'vec::Vec::<T, A>::insert')
def m_vec_edit(I, inst, args, st, atys, sp):
    op = inst['np'].split('::')[-1]
    c = I.read_ptr(st, args[0]).content
    if isinstance(c, Perm):
        I.write_ptr(st, args[0], Vec(Perm(c.origin, c.extra + (op,))))
        return UNIT
    return list_edit(I, st, args[0], op, args, inst, sp)


@reg('vec::Vec::<T, A>::len', 'slice::<impl [T]>::len', 'collections::VecDeque::<T, A>::len')
def m_slice_len(I, inst, args, st, atys, sp):
    v = args[0]
    if isinstance(v, Union):
        r = None
        for g, x in reversed(v.alts):
            y = m_slice_len(I, inst, [x], st, atys, sp)
            r = y if r is None else ite(g, y, r)
        return r
    if isinstance(v, Ptr) and v.meta is None:
        x = I.read_ptr(st, v)
        if isinstance(x, Vec) and isinstance(x.content, Perm):
            return x.content.length()
        if isinstance(x, Vec):
            return I.vec_len(x)
        return I.arr_len(x)
    return I.ptr_len(v)


@reg('vec::Vec::<T, A>::is_empty', 'slice::<impl [T]>::is_empty')
def m_is_empty(I, inst, args, st, atys, sp):
    return eq(m_slice_len(I, inst, args, st, atys, sp), usz(0))


@reg('vec::Vec::<T, A>::capacity')
def m_capacity(I, inst, args, st, atys, sp):
    return sym('capacity', USIZE)


@reg('vec::Vec::<T, A>::reserve', 'vec::Vec::<T, A>::shrink_to_fit', 'vec::Vec::<T, A>::reserve_exact', 'string::String::reserve')
def m_nop(I, inst, args, st, atys, sp):
    return UNIT


@reg('vec::Vec::<T, A>::as_slice', 'vec::Vec::<T, A>::as_mut_slice', 'array::<impl [T; N]>::as_slice',
     '<vec::Vec<T, A> as ops::Deref>::deref', '<vec::Vec<T, A> as ops::DerefMut>::deref_mut',
     '<vec::Vec<T, A> as convert::AsRef<[T]>>::as_ref', '<vec::Vec<T, A> as convert::AsMut<[T]>>::as_mut',
     '<vec::Vec<T, A> as borrow::Borrow<[T]>>::borrow',
     'array::<impl convert::AsRef<[T]> for [T; N]>::as_ref', 'array::<impl borrow::Borrow<[T]> for [T; N]>::borrow',
     'slice::<impl convert::AsRef<[T]> for [T]>::as_ref')
def m_as_slice(I, inst, args, st, atys, sp):
    v = args[0]
    if isinstance(v, Ptr) and v.meta is None:
        x = I.read_ptr(st, v)
        if isinstance(x, Vec) and isinstance(x.content, Perm):
            return Ptr(v.alloc, v.path + (('c',),), (usz(0), x.content.length()))
    return as_slice(I, st, v)


@reg('<boxed::Box<T, A> as convert::AsRef<T>>::as_ref', '<boxed::Box<T, A> as ops::Deref>::deref',
     '<boxed::Box<T, A> as borrow::Borrow<T>>::borrow', '<boxed::Box<T, A> as ops::DerefMut>::deref_mut',
     '<boxed::Box<T, A> as convert::AsMut<T>>::as_mut')
def m_box_ref(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    if isinstance(v, Vec):
        return as_slice(I, st, args[0])
    if isinstance(v, Str):
        return StrRef(v.term)
    return Ptr(args[0].alloc, args[0].path + (('c',),))


@reg('boxed::Box::<T>::new')
def m_box_new(I, inst, args, st, atys, sp):
    return Agg([args[0]], 'box')


@reg('vec::Vec::<T, A>::into_boxed_slice', 'slice::<impl [T]>::into_vec', 'boxed::Box::<[T]>::into_vec')
def m_into_boxed(I, inst, args, st, atys, sp):
    return args[0]


@reg('slice::<impl [T]>::to_vec', 'slice::<impl borrow::ToOwned for [T]>::to_owned')
def m_to_vec(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    return Vec(content_of(I, st, p))


def bounds_event(I, inst, st, sp, ok, msg):
    bad = land(st.path, lnot(ok))
    if bad is not FALSE and not I.surely_false(bad):
        I.event(bad, msg, I.stack[-1] if I.stack else inst['name'], sp)


def slice_at(I, inst, st, p, a, b, sp):
    """p[a..b] with its bounds check."""
    off, n = p.meta
    ok = land(lnot(lt(b, a)), lnot(lt(n, b)))
    bounds_event(I, inst, st, sp, ok, 'slice bounds')
    return Ptr(p.alloc, p.path, (add(off, a), sub(b, a)))


def range_bounds(I, r, rty, n):
    t = I.P.types[rty]
    name = norm_path(t['path']).split('::')[-1] if t['k'] == 'adt' else None
    if name == 'Range':
        return r.fields[0], r.fields[1]
    if name == 'RangeTo':
        return usz(0), r.fields[0]
    if name == 'RangeFrom':
        return r.fields[0], n
    if name == 'RangeFull':
        return usz(0), n
    if name == 'RangeInclusive':
        return r.fields[0], add(r.fields[1], usz(1))
    if name == 'RangeToInclusive':
        return usz(0), add(r.fields[0], usz(1))
    return None


@trait('ops::Index::index', 'ops::IndexMut::index_mut')
def t_index(I, inst, args, st, atys, sp):
    base = args[0]
    if isinstance(base, Union):
        if all(isinstance(I.read_ptr(st, x), Map) for _, x in base.alts if isinstance(x, Ptr)):
            return Union([(g, conditional(I, st, g, lambda s: t_index(I, inst, [x, args[1]], s, atys, sp))) for g, x in base.alts])
        raise Unsupported('joined reference')
    if isinstance(base, StrRef):
        raise Unsupported('string slicing')
    v = I.read_ptr(st, base) if isinstance(base, Ptr) and base.meta is None else None
    if isinstance(v, Map):
        k = I.read_ptr(st, args[1])
        return map_index(I, inst, st, v, k, sp)
    if isinstance(v, (Str,)):
        raise Unsupported('string slicing')
    p = one_ptr(as_slice(I, st, base))
    i = args[1]
    if isinstance(i, Term):
        ok = lt(i, p.meta[1])
        bounds_event(I, inst, st, sp, ok, 'index out of bounds')
        return Ptr(p.alloc, p.path + (('i', add(p.meta[0], i)),))
    b = range_bounds(I, i, aty(I, inst, atys, 1), p.meta[1])
    if b is None:
        raise Unsupported('index by %r' % (i,))
    return slice_at(I, inst, st, p, b[0], b[1], sp)


@reg('slice::<impl [T]>::get', 'slice::<impl [T]>::get_mut')
def m_get(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    i = args[1]
    if isinstance(i, Term):
        return opt(lt(i, p.meta[1]), Ptr(p.alloc, p.path + (('i', add(p.meta[0], i)),)), ret_ty(inst))
    b = range_bounds(I, i, aty(I, inst, atys, 1), p.meta[1])
    if b is None:
        raise Unsupported('get')
    ok = land(lnot(lt(b[1], b[0])), lnot(lt(p.meta[1], b[1])))
    return opt(ok, Ptr(p.alloc, p.path, (add(p.meta[0], b[0]), sub(b[1], b[0]))), ret_ty(inst))


@reg('slice::<impl [T]>::first', 'slice::<impl [T]>::last')
def m_first(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    off, n = p.meta
    i = off if inst['np'].endswith('first') else sub(add(off, n), usz(1))
    return opt(lnot(eq(n, usz(0))), Ptr(p.alloc, p.path + (('i', i),)), ret_ty(inst))


@reg('slice::<impl [T]>::split_first', 'slice::<impl [T]>::split_last')
def m_split_first(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    off, n = p.meta
    one = usz(1)
    if inst['np'].endswith('split_first'):
        pair = Agg([Ptr(p.alloc, p.path + (('i', off),)), Ptr(p.alloc, p.path, (add(off, one), sub(n, one)))])
    else:
        pair = Agg([Ptr(p.alloc, p.path + (('i', sub(add(off, n), one)),)), Ptr(p.alloc, p.path, (off, sub(n, one)))])
    return opt(lnot(eq(n, usz(0))), pair, ret_ty(inst))


@reg('slice::<impl [T]>::split_at', 'slice::<impl [T]>::split_at_mut')
def m_split_at(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice_perm(I, st, args[0]))
    off, n = p.meta
    bounds_event(I, inst, st, sp, lnot(lt(n, args[1])), 'split_at out of bounds')
    return Agg([Ptr(p.alloc, p.path, (off, args[1])), Ptr(p.alloc, p.path, (add(off, args[1]), sub(n, args[1])))])


@reg('slice::<impl [T]>::contains')
def m_contains(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    x = I.read_ptr(st, args[1])
    ys, n = padded_elems(I, st, p)
    return lor(FALSE, *[land(lt(usz(k), n), veq_untyped(I, st, y, x)) for k, y in enumerate(ys)])


@reg('slice::<impl [T]>::windows', 'slice::<impl [T]>::chunks', 'slice::<impl [T]>::chunks_exact')
def m_windows(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    k = args[1]
    off, n = p.meta
    op = inst['np'].split('::')[-1]
    if not (k.is_const and off.is_const) or k.data == 0:
        raise Unsupported('windows')
    if not n.is_const:
        m, out = most(I, st, n, 64), []
        for i in range(0, m, 1 if op == 'windows' else k.data):
            left = sub(n, usz(i))
            w = k if op != 'chunks' else ite(lt(left, k), left, k)
            here = lt(usz(i), n) if op == 'chunks' else land(lt(usz(i), n), lnot(lt(left, k)))
            if here is not FALSE:
                out.append((here, Ptr(p.alloc, p.path, (usz(off.data + i), w))))
        return Iter(ListSeq(out))
    if op == 'windows':
        rng = [(i, k.data) for i in range(n.data - k.data + 1)]
    else:
        rng = [(i, min(k.data, n.data - i)) for i in range(0, n.data, k.data)]
        if op == 'chunks_exact':
            rng = [(i, m) for i, m in rng if m == k.data]
    return Iter(ListSeq([(TRUE, Ptr(p.alloc, p.path, (usz(off.data + i), usz(m)))) for i, m in rng]))


class Perm(V):
    """Some permutation of `origin` (plus later length-changing edits)."""
    __slots__ = ('origin', 'extra')

    def __init__(self, origin, extra=()):
        self.origin = origin
        self.extra = tuple(extra)

    def length(self):
        o = self.origin
        n = len(o.items) if isinstance(o, Arr) else o.dim.size
        if self.extra:
            return sym('length', USIZE)
        return usz(n)

    def __repr__(self):
        return 'Perm(%r)%s' % (self.origin, self.extra or '')


@reg('slice::<impl [T]>::swap', 'slice::<impl [T]>::reverse', 'slice::<impl [T]>::rotate_left', 'slice::<impl [T]>::rotate_right')
def m_permute(I, inst, args, st, atys, sp):
    op = inst['np'].split('::')[-1]
    p = one_ptr(as_slice_perm(I, st, args[0]))
    full = Ptr(p.alloc, p.path)
    c = I.norm_content(I.read_ptr(st, full))
    if op == 'swap':
        for a in args[1:3]:
            bounds_event(I, inst, st, sp, lt(a, p.meta[1]), 'index out of bounds')
    elif op.startswith('rotate'):
        bounds_event(I, inst, st, sp, lnot(lt(p.meta[1], args[1])), 'rotate out of bounds')
    loose = [x for x in args[1:] if x in DRAWS]
    if loose and op == 'swap' and isinstance(c, (Perm, Arr, Stack)) and p.meta[0].is_const:
        i, j = args[1:3]
        if j not in DRAWS:
            i, j = j, i
        if not i.is_const:
            raise Unsupported('a swap of two drawn places')
        k = p.meta[0].data
        step(I, st, p, (k + i.data, k + DRAWS[j][0], k + DRAWS[j][1]), sp)
        I.write_ptr(st, full, c if isinstance(c, Perm) else Perm(c))
        return UNIT
    if isinstance(c, Perm):
        step(I, st, p, 'fixed' if all(x.is_const or x in DRAWS for x in args[1:]) else 'content', sp)
        return UNIT
    c = as_arr(c)
    if isinstance(c, Ragged) and op in ('swap', 'reverse'):
        off, n = p.meta
        m = most(I, st, n, 16)
        xs = [I.index(c, add(off, usz(k))) for k in range(m)]
        for k in range(m):
            at = add(off, usz(k))
            if op == 'reverse':
                v = I.index(Arr(xs), sub(sub(n, usz(1)), usz(k)))
            else:
                i, j = args[1:3]
                v = merge(eq(usz(k), i), I.index(Arr(xs), j), merge(eq(usz(k), j), I.index(Arr(xs), i), xs[k]))
            v = merge(lt(usz(k), n), v, I.index(c, at))
            I.write_ptr(st, Ptr(p.alloc, p.path + (('i', at),)), v)
        return UNIT
    if not isinstance(c, Arr) or not all(x.is_const for x in p.meta) or not all(a.is_const for a in args[1:]):
        raise Unsupported(op)
    items = list(c.items)
    a, b = p.meta[0].data, p.meta[0].data + p.meta[1].data
    part = items[a:b]
    if op == 'swap':
        i, j = args[1].data, args[2].data
        part[i], part[j] = part[j], part[i]
    elif op == 'reverse':
        part = part[::-1]
    else:
        k = args[1].data if op == 'rotate_left' else len(part) - args[1].data
        part = part[k:] + part[:k]
    items[a:b] = part
    I.write_ptr(st, full, Arr(items))
    return UNIT


def as_slice_perm(I, st, v):
    if isinstance(v, Ptr) and v.meta is None:
        x = I.read_ptr(st, v)
        if isinstance(x, Vec) and isinstance(x.content, Perm):
            return Ptr(v.alloc, v.path + (('c',),), (usz(0), x.content.length()))
    return as_slice(I, st, v)


@pat(r'slice::<impl \[T\]>::(sort\w*)')
def m_sort(I, inst, args, st, atys, sp, op):
    p = one_ptr(as_slice_perm(I, st, args[0]))
    full = Ptr(p.alloc, p.path)
    c = I.norm_content(I.read_ptr(st, full))
    if isinstance(c, Perm):
        step(I, st, p, 'content', sp)
        return UNIT
    c = as_arr(c)
    size = None
    if isinstance(c, Ragged) and p.meta[1] is c.n and len(c.items) <= 7:
        c, size = Arr(c.items), c.n
    elif not isinstance(c, Arr) or not all(x.is_const for x in p.meta):
        raise Unsupported(op)
    a0, n0 = (0, len(c.items)) if size is not None else (x.data for x in p.meta)
    whole, c = c.items, Arr(c.items[a0:a0 + n0])
    ety = I.P.types[I.P.peel(aty(I, inst, atys, 0))]['ty']
    if op in ('sort', 'sort_unstable'):
        less = lambda s, a, b: vless(I, s, a, b, ety)
    elif op in ('sort_by', 'sort_unstable_by'):
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
        less = lambda s, a, b: is_var(callf(I, s, f, fty, [tmp(I, s, a), tmp(I, s, b)]), 0)
    elif op in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
        kt = [k for k in inst['targs'][1:] if I.P.types[k]['k'] not in ('closure', 'fndef')][0]
        less = lambda s, a, b: vless(I, s, callf(I, s, f, fty, [tmp(I, s, a)]), callf(I, s, f, fty, [tmp(I, s, b)]), kt)
    else:
        raise Unsupported(op)
    if 'unstable' in op and len(c.items) > 1 and op != 'sort_unstable':
        pass                        # any order of ties is allowed; the stable one is analysed
    items = list(c.items)
    n = len(items)
    if size is None and n > 9:      # only where every comparison is known
        def cmp(a, b):
            for x, y, r in ((a, b, -1), (b, a, 1)):
                g = less(st, x, y)
                if not g.is_const:
                    raise Unsupported('%s of %d items' % (op, n))
                if g is TRUE:
                    return r
            return 0
        items.sort(key=functools.cmp_to_key(cmp))
        n = 0
    for i in range(n):              # bubble network: stable
        for j in range(n - 1 - i):
            if size is None:
                g = less(st, items[j + 1], items[j])
            else:
                here = lt(usz(j + 1), size)
                r = conditional(I, st, here, lambda s: I.scalar(less(s, items[j + 1], items[j])))
                g = land(here, r) if r is not None else FALSE
            if g is FALSE:
                continue
            items[j], items[j + 1] = merge(g, items[j + 1], items[j]), merge(g, items[j], items[j + 1])
    I.write_ptr(st, full, Arr(list(whole[:a0]) + items + list(whole[a0 + n0:])) if size is None else Ragged(items, size))
    return UNIT


@reg('vec::Vec::<T, A>::dedup')
def m_dedup(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    c = as_arr(I.norm_content(v.content))
    size = None
    if isinstance(c, Ragged):
        size = c.n
    elif not isinstance(c, Arr):
        raise Unsupported('dedup')
    if len(c.items) > 12:
        raise Unsupported('dedup')
    # equal runs: keep an item unless it equals its predecessor (equality is transitive)
    ent = []
    for i, x in enumerate(c.items):
        g = TRUE if i == 0 else lnot(veq_untyped(I, st, c.items[i - 1], x))
        if size is not None:
            g = land(g, lt(usz(i), size))
        if g is not FALSE:
            ent.append(Entry((), g, None, x, None))
    I.write_ptr(st, args[0], Vec(Log(ent)))
    return UNIT


@reg('array::<impl [T; N]>::map')
def m_arr_map(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    v = as_arr(args[0])
    if not isinstance(v, Arr):
        raise Unsupported('map of %r' % (v,))
    return Arr([callf(I, st, f, fty, [x]) for x in v.items])


@reg('array::from_fn')
def m_from_fn(I, inst, args, st, atys, sp):
    rt = I.P.types[ret_ty(inst)]
    f, fty = hold(I, st, args[0]), aty(I, inst, atys, 0)
    n = int(rt['len'])
    return Arr([callf(I, st, f, fty, [usz(i)]) for i in range(n)])


@reg('array::<impl convert::TryFrom<&[T]> for [T; N]>::try_from', 'array::<impl convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from')
def m_arr_try_from(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    rt = I.P.types[ret_ty(inst)]
    okty = I.P.types[rt['args'][0]]
    byref = okty['k'] == 'ref'
    n = int((I.P.types[okty['ty']] if byref else okty)['len'])
    if not p.meta[1].is_const:
        xs, size = padded_elems(I, st, p)
        if len(xs) < n:
            return variant(1, [UNIT], ret_ty(inst))
        items = Arr(xs[:n])
        return merge(eq(size, usz(n)), variant(0, [tmp(I, st, items) if byref else items], ret_ty(inst)),
                     variant(1, [UNIT], ret_ty(inst)))
    if p.meta[1].data != n:
        return variant(1, [UNIT], ret_ty(inst))
    items = Arr(slice_elems(I, st, p))
    return variant(0, [tmp(I, st, items) if byref else items], ret_ty(inst))


@reg('vec::from_elem')
def m_from_elem(I, inst, args, st, atys, sp):
    if not args[1].is_const or args[1].data > 4096:
        raise Unsupported('vec![x; n]')
    return Vec(Arr([args[0]] * args[1].data))


@reg('slice::<impl [T]>::fill')
def m_fill(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    if not all(x.is_const for x in p.meta):
        raise Unsupported('fill')
    for i in range(p.meta[1].data):
        I.write_ptr(st, Ptr(p.alloc, p.path + (('i', usz(p.meta[0].data + i)),)), args[1])
    return UNIT


@reg('slice::<impl [T]>::copy_from_slice', 'slice::<impl [T]>::clone_from_slice')
def m_copy_from(I, inst, args, st, atys, sp):
    p, q = one_ptr(as_slice(I, st, args[0])), one_ptr(as_slice(I, st, args[1]))
    bounds_event(I, inst, st, sp, eq(p.meta[1], q.meta[1]), 'copy_from_slice length')
    xs = slice_elems(I, st, q)
    for i, x in enumerate(xs):
        I.write_ptr(st, Ptr(p.alloc, p.path + (('i', add(p.meta[0], usz(i))),)), x)
    return UNIT


# ------------------------------------------------------------------ equality, clone, ordering
def veq_untyped(I, st, a, b):
    if isinstance(a, Ptr):
        a = I.read_ptr(st, a)
    if isinstance(b, Ptr):
        b = I.read_ptr(st, b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return veq_untyped(I, st, a, b)
    if isinstance(a, Term) and isinstance(b, Term):
        return eq(a, b)
    if isinstance(a, (Str, StrRef)) and isinstance(b, (Str, StrRef)):
        return eq(a.term, b.term)
    ty = a.ty if isinstance(a, (Agg, Enum)) else None
    if isinstance(ty, int):
        f = I.P.find_trait('cmp::PartialEq::eq', ty)
        if f is not None and I.P.insts[f]['crate'] in CRATES:
            return I.scalar(I.call(f, [tmp(I, st, a), tmp(I, st, b)], st))
        t = I.P.types[ty]
        if t['k'] == 'adt' and t['crate'] in CRATES:
            raise Unsupported('equality of ' + t['name'])
    if isinstance(a, Agg) and isinstance(b, Agg):
        return land(TRUE, *[veq_untyped(I, st, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        r = FALSE
        for k in set(a.vs) & set(b.vs):
            r = lor(r, land(is_var(a, k), is_var(b, k), *[veq_untyped(I, st, x, y) for x, y in zip(a.vs[k], b.vs[k])]))
        return r
    if isinstance(a, Vec) and isinstance(b, Vec):
        return seq_eq(I, st, I.norm_content(a.content), I.norm_content(b.content))
    if isinstance(a, (Arr, Stack, Ragged)) and isinstance(b, (Arr, Stack, Ragged)):
        return seq_eq(I, st, a, b)
    if isinstance(a, Map) and isinstance(b, Map):
        return map_eq(I, a, b)
    raise Unsupported('equality of %r' % (a,))


def size_of(c):
    return c.n if isinstance(c, Ragged) else usz(len(c.items))


def seq_eq(I, st, a, b):
    a, b = as_arr(a), as_arr(b)
    if isinstance(a, Ragged) or isinstance(b, Ragged):
        n, m = size_of(a), size_of(b)
        return land(eq(n, m), *[lor(lnot(lt(usz(k), n)), veq_untyped(I, st, x, y))
                                for k, (x, y) in enumerate(zip(a.items, b.items))])
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise Unsupported('equality of sequences')
    if len(a.items) != len(b.items):
        return FALSE
    return land(TRUE, *[veq_untyped(I, st, x, y) for x, y in zip(a.items, b.items)])


def map_eq(I, a, b):
    if a is b or same(a, b):
        return TRUE
    if not a.entries and not b.entries:
        return TRUE
    if not a.entries or not b.entries:
        x = a if a.entries else b
        m = I.finalize_map(x)
        return boolc(m.size == 0)
    x, y = I.finalize_map(a), I.finalize_map(b)
    if x.size != y.size or not np.array_equal(x.keys, y.keys):
        return FALSE
    for p, q in zip(x.cols, y.cols):
        if p.sort != q.sort or not np.array_equal(p.vals, q.vals):
            return FALSE
    return boolc(len(x.cols) == len(y.cols))


@trait('cmp::PartialEq::eq')
def t_eq(I, inst, args, st, atys, sp):
    a, b = args
    return slice_aware_eq(I, st, a, b)


@trait('cmp::PartialEq::ne')
def t_ne(I, inst, args, st, atys, sp):
    own = [i for (item, ty), l in I.P.by_trait.items() if item == 'cmp::PartialEq::ne' for i in l if I.P.insts[i]['crate'] in CRATES]
    if own:
        # a type with its own !=
        ty = I.P.peel(inst['self_ty'])
        if I.P.types[ty]['k'] == 'adt' and I.P.types[ty]['crate'] in CRATES:
            f = I.P.find_trait('cmp::PartialEq::ne', ty)
            if f is not None and I.P.insts[f]['crate'] in CRATES:
                vs = []
                for a in args:
                    while isinstance(a, Ptr) and isinstance(I.read_ptr(st, a), Ptr):
                        a = I.read_ptr(st, a)
                    vs.append(a if isinstance(a, Ptr) else tmp(I, st, a))
                return I.scalar(I.call(f, vs, st))
        elif I.P.types[ty]['k'] not in ('int', 'bool', 'char', 'str', 'float'):
            raise Unsupported('!= of values made of a type with its own !=')
    return lnot(slice_aware_eq(I, st, args[0], args[1]))


def slice_aware_eq(I, st, a, b):
    def view(v):
        while isinstance(v, Ptr):
            if v.meta is not None:
                return content_of(I, st, v)
            v = I.read_ptr(st, v)
        if isinstance(v, Vec):
            return I.norm_content(v.content)
        return v
    a, b = view(a), view(b)
    if isinstance(a, (Arr, Stack, Ragged)) and isinstance(b, (Arr, Stack, Ragged)):
        return seq_eq(I, st, a, b)
    if isinstance(a, Union) or isinstance(b, Union):
        raise Unsupported('equality of joined values')
    return veq_untyped(I, st, a, b)


def clone_value(I, st, v):
    return v


@trait('clone::Clone::clone', 'borrow::ToOwned::to_owned')
def t_clone(I, inst, args, st, atys, sp):
    v = args[0]
    if isinstance(v, StrRef):
        return Str(v.term) if inst['nt'].endswith('to_owned') else v
    if isinstance(v, Ptr) and v.meta is not None:
        return Vec(content_of(I, st, v))
    v = I.read_ptr(st, v)
    # element types written in the crate could clone in their own way
    if custom_clone(I, v):
        raise Unsupported('clone of a container of a type with its own Clone')
    return v


def custom_clone(I, v):
    return False


def cmp_args(I, st, a, b):
    return a, b


CMP_T = r'(?:isize|usize|[iu]\d+|char|bool)'


@pat(r'cmp::impls::<impl cmp::(?:Partial)?(?:Eq|Ord)(?:<.*>)? for ' + CMP_T + r'>::(\w+)')
def m_cmp_prim(I, inst, args, st, atys, sp, op):
    return prim_cmp(I, inst, st, args, op)


def prim_cmp(I, inst, st, args, op):
    if op in ('max', 'min', 'clamp'):
        a, b = args[0], args[1]
        if op == 'max':
            return ite(I.less(b, a), a, b)
        if op == 'min':
            return ite(I.less(b, a), b, a)
        x, lo, hi = args
        return ite(I.less(x, lo), lo, ite(I.less(hi, x), hi, x))
    a, b = [I.scalar(I.read_ptr(st, x)) for x in args[:2]]
    if op == 'eq':
        return eq(a, b)
    if op == 'ne':
        return lnot(eq(a, b))
    if op == 'lt':
        return I.less(a, b)
    if op == 'le':
        return lnot(I.less(b, a))
    if op == 'gt':
        return I.less(b, a)
    if op == 'ge':
        return lnot(I.less(a, b))
    o = I.ordering(I.less(a, b), eq(a, b))
    if op == 'cmp':
        return o
    if op == 'partial_cmp':
        return some(o, ret_ty(inst))
    raise Unsupported('comparison ' + op)


@trait('cmp::Ord::max', 'cmp::Ord::min')
def t_ordmax(I, inst, args, st, atys, sp):
    a, b = args
    if isinstance(a, Term):
        return prim_cmp(I, inst, st, args, inst['nt'].split('::')[-1])
    if inst['body'] is not None:
        return I.call_body(inst, inst['body'], args, st)
    raise Unsupported('max')


# ------------------------------------------------------------------ numbers
WORDS = r'(?:isize|usize|[iu]\d+)'


@pat(r'num::<impl (' + WORDS + r')>::(\w+)')
def m_num(I, inst, args, st, atys, sp, tyname, op):
    a = args[0] if args else None
    r = number_op(I, inst, args, st, op, sp)
    if r is not None:
        return r
    if not isinstance(a, Term) or not isinstance(a.sort, tuple):
        if inst['body'] is not None:
            return I.call_body(inst, inst['body'], args, st)
        raise Unsupported('number %s' % op)
    s = a.sort
    b = args[1] if len(args) > 1 else None
    u32 = ('u', 32)
    if op in ('wrapping_add', 'unchecked_add'):
        return add(a, b)
    if op in ('wrapping_sub', 'unchecked_sub'):
        return sub(a, b)
    if op in ('wrapping_mul', 'unchecked_mul'):
        return mk_ac('mul', s, (a, b))
    if op == 'wrapping_neg':
        return mk('neg', s, a)
    if op in ('wrapping_shl', 'wrapping_shr'):
        return mk('shl' if op.endswith('l') else 'shr', s, a, b)
    if op == 'trailing_zeros':
        return mk('ctz', u32, a)
    if op == 'leading_zeros':
        return mk('clz', u32, a)
    if op == 'count_ones':
        return mk('popcount', u32, a)
    if op == 'count_zeros':
        return sub(const(s[1], u32), mk('popcount', u32, a))
    if op == 'trailing_ones':
        return mk('ctz', u32, mk('not', s, a))
    if op == 'is_power_of_two':
        return eq(mk('popcount', u32, a), const(1, u32))
    if op == 'ilog2':
        return sub(const(s[1] - 1, u32), mk('clz', u32, a))
    if op in ('checked_add', 'checked_sub', 'checked_mul'):
        o = op[8:]
        r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else mk_ac('mul', s, (a, b))
        return opt(lnot(mk('ovf_' + o, 'bool', a, b)), r, ret_ty(inst))
    if op in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
        o = op[12:]
        r = add(a, b) if o == 'add' else sub(a, b) if o == 'sub' else mk_ac('mul', s, (a, b))
        return Agg([r, mk('ovf_' + o, 'bool', a, b)])
    if op == 'saturating_sub' and s[0] == 'u':
        return ite(lt(a, b), const(0, s), sub(a, b))
    if op == 'saturating_add' and s[0] == 'u':
        return ite(mk('ovf_add', 'bool', a, b), const((1 << s[1]) - 1, s), add(a, b))
    if op in ('saturating_add', 'saturating_sub'):
        o = op[11:]
        r = add(a, b) if o == 'add' else sub(a, b)
        neg = lt(a, const(0, s))
        lim = ite(neg, const(-(1 << (s[1] - 1)), s), const((1 << (s[1] - 1)) - 1, s))
        return ite(mk('ovf_' + o, 'bool', a, b), lim, r)
    if op == 'abs_diff':
        us = ('u', s[1])
        return cast(ite(lt(a, b), sub(b, a), sub(a, b)), us)
    if op in ('rem_euclid', 'div_euclid') and s[0] == 'u':
        return mk('rem' if op[0] == 'r' else 'div', s, a, b)
    if op in ('is_positive', 'is_negative'):
        return lt(const(0, s), a) if op == 'is_positive' else lt(a, const(0, s))
    if inst['body'] is not None:
        return I.call_body(inst, inst['body'], args, st)
    raise Unsupported('number %s' % op)


@pat(r'(?:convert::num::)?<impl convert::From<(\w+)> for (\w+)>::from')
def m_from_num(I, inst, args, st, atys, sp, a, b):
    return num_from(I, inst, args)


@pat(r'convert::num::<impl convert::From<(\w+)> for (\w+)>::from')
def m_from_num2(I, inst, args, st, atys, sp, a, b):
    return num_from(I, inst, args)


@pat(r'char::convert::<impl convert::From<(\w+)> for (\w+)>::from')
def m_from_char(I, inst, args, st, atys, sp, a, b):
    return num_from(I, inst, args)


def num_from(I, inst, args):
    s = I.sort_of(ret_ty(inst))
    if s is None or not isinstance(args[0], Term):
        raise Unsupported('conversion ' + inst['name'])
    return cast(args[0], s)


@pat(r'convert::num::(?:\w+::)*<impl convert::TryFrom<(\w+)> for (\w+)>::try_from')
def m_tryfrom_num(I, inst, args, st, atys, sp, a, b):
    rt = ret_ty(inst)
    s = I.sort_of(I.P.types[rt]['args'][0])
    x = args[0]
    if not isinstance(s, tuple) or not isinstance(x.sort, tuple):
        raise Unsupported('conversion ' + inst['name'])
    y = cast(x, s)
    back = cast(y, x.sort)
    ok = eq(back, x)
    if s[0] != x.sort[0]:
        if x.sort[0] == 'i':
            ok = land(ok, lnot(lt(x, const(0, x.sort))))
        else:
            ok = land(ok, lnot(lt(y, const(0, s))))
    return Enum(ite(ok, const(0, VIDX), const(1, VIDX)), {0: (y,), 1: (UNIT,)}, rt)


# arithmetic trait impls on primitives (through references or generics)
@pat(r'<&?(?:\'a )?(?:' + WORDS + r'|bool) as ops::(\w+)(?:<.*>)?>::(\w+)')
def m_arith(I, inst, args, st, atys, sp, tr, op):
    xs = [I.scalar(I.read_ptr(st, a)) if isinstance(a, Ptr) and not op.endswith('_assign') else a for a in args]
    if op.endswith('_assign'):
        cur = I.scalar(I.read_ptr(st, args[0]))
        y = args[1]
        if isinstance(y, Ptr):
            y = I.scalar(I.read_ptr(st, y))
        r = arith(I, inst, st, sp, op[:-7], cur, y)
        I.write_ptr(st, args[0], r)
        return UNIT
    if op == 'not':
        return mk('not', xs[0].sort, xs[0])
    if op == 'neg':
        return mk('neg', xs[0].sort, xs[0])
    return arith(I, inst, st, sp, op, xs[0], xs[1])


def arith(I, inst, st, sp, op, a, b):
    s = a.sort
    if op in ('add', 'sub', 'mul'):
        bad = land(st.path, mk('ovf_' + op, 'bool', a, b))
        if not I.surely_false(bad):
            I.event(bad, 'overflow ' + op.capitalize(), I.stack[-1] if I.stack else '', sp)
        return add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mk_ac('mul', s, (a, b))
    if op in ('bitand', 'bitor', 'bitxor'):
        return mk_ac({'bitand': 'and', 'bitor': 'or', 'bitxor': 'xor'}[op], s, (a, b))
    if op in ('shl', 'shr'):
        if isinstance(b.sort, tuple) and b.sort[0] == 'i':
            b = cast(b, ('u', b.sort[1]))
        bad = land(st.path, lnot(lt(b, const(s[1], b.sort))))
        if not I.surely_false(bad):
            I.event(bad, 'overflow shift', I.stack[-1] if I.stack else '', sp)
        return mk(op, s, a, b)
    if op in ('div', 'rem'):
        bad = land(st.path, eq(b, const(0, s)))
        if not I.surely_false(bad):
            I.event(bad, 'division by zero', I.stack[-1] if I.stack else '', sp)
        return mk(op, s, a, b)
    raise Unsupported('operator ' + op)


# ------------------------------------------------------------------ hash tables
@reg('collections::HashMap::<K, V, S>::with_capacity_and_hasher', 'collections::HashMap::<K, V, S>::with_hasher',
     'collections::HashMap::<K, V>::new', 'collections::HashMap::<K, V>::with_capacity',
     'collections::HashMap::<K, V, RandomState>::new', 'collections::HashMap::<K, V, hash::RandomState>::new',
     'collections::HashMap::<K, V, hash::RandomState>::with_capacity',
     '<collections::HashMap<K, V, S> as default::Default>::default')
def m_map_new(I, inst, args, st, atys, sp):
    return Map((), 'map')


@reg('collections::HashSet::<T>::new', 'collections::HashSet::<T>::with_capacity', 'collections::HashSet::<T, S>::with_hasher',
     'collections::HashSet::<T, S>::with_capacity_and_hasher', '<collections::HashSet<T, S> as default::Default>::default',
     'collections::HashSet::<T, hash::RandomState>::new', 'collections::HashSet::<T, hash::RandomState>::with_capacity')
def m_set_new(I, inst, args, st, atys, sp):
    return Map((), 'set')


@pat(r'collections::HashMap::<K, V(?:, [\w:]+)*>::(new|with_capacity|with_hasher|with_capacity_and_hasher)')
def m_map_new2(I, inst, args, st, atys, sp, op):
    return Map((), 'map')


@pat(r'collections::HashSet::<T(?:, [\w:]+)*>::(new|with_capacity|with_hasher|with_capacity_and_hasher)')
def m_set_new2(I, inst, args, st, atys, sp, op):
    return Map((), 'set')


def as_map(I, st, p):
    v = I.read_ptr(st, p)
    while isinstance(v, Ptr):
        v = I.read_ptr(st, v)
    if not isinstance(v, Map):
        raise Unsupported('table %r' % (v,))
    return v


def m_map_insert(I, inst, args, st, atys, sp):
    p, k, v = args
    m = as_map(I, st, p)
    I.write_ptr(st, p, type(m)(m.entries + (Entry((I.tick(),), TRUE, k, v, sp),), m.kind))
    return Opaque('previous entry')


@pat(r'collections::(?:HashSet|BTreeSet)::<T(?:, \w+)*>::insert')
def m_set_insert(I, inst, args, st, atys, sp):
    p, k = args
    m = as_map(I, st, p)
    r = lnot(small_contains(I, st, m, k))
    I.write_ptr(st, p, type(m)(m.entries + (Entry((I.tick(),), TRUE, k, None, sp),), m.kind))
    return r


def same_key(I, st, m, a, b):
    if m.kind[0] == 'b':            # ordered tables go by Ord
        return is_var(vcmp_untyped(I, st, a, b), 1)
    return veq_untyped(I, st, a, b)


def is_open(m):
    from interp import OpenMap
    return isinstance(m, OpenMap)


def small(m):
    return not is_open(m) and len(m.entries) <= 64 and not any(isinstance(x, Dim) for e in m.entries for x in e.time)


def small_contains(I, st, m, k):
    if not small(m):
        raise Unsupported('membership in a table while it is filled')
    return lor(FALSE, *[land(e.guard, same_key(I, st, m, e.key, k)) for e in m.entries])


@pat(r'(?:collections::(?:HashSet|BTreeSet|HashMap|BTreeMap)|phf::map::Map)::<[KT](?:, \w+)*>::(contains|contains_key)')
def m_contains_key(I, inst, args, st, atys, sp, op):
    m = as_map(I, st, args[0])
    k = I.read_ptr(st, args[1])
    if isinstance(k, Ptr):
        k = I.read_ptr(st, k)
    if small(m):
        return small_contains(I, st, m, k)
    return I.finalize_map(m).contains(I.scalar(k))


@pat(r'(?:collections::(?:HashSet|BTreeSet|HashMap|BTreeMap)|phf::map::Map)::<[KT](?:, \w+)*>::(len|is_empty)')
def m_map_len(I, inst, args, st, atys, sp, op):
    m = as_map(I, st, args[0])
    if small(m):
        n = usz(0)
        seen = []
        for e in m.entries:
            new = land(e.guard, *[lnot(land(f.guard, same_key(I, st, m, f.key, e.key))) for f in seen])
            n = add(n, ite(new, usz(1), usz(0)))
            seen.append(e)
    else:
        n = usz(I.finalize_map(m).size)
    return n if op == 'len' else eq(n, usz(0))


def map_lookup(I, st, m, k):
    if I.on_lookup is not None:
        I.on_lookup(I, st)
    """(present, value)"""
    if small(m) and (not isinstance(k, Term) or k.syms or len(m.entries) < 8):
        hit, val = FALSE, None
        for e in m.entries:
            c = land(e.guard, same_key(I, st, m, e.key, k))
            val = e.value if val is None else merge(c, e.value, val)
            hit = lor(hit, c)
        return hit, val
    ml = I.finalize_map(m)
    k = I.scalar(k)
    if ml.size == 0:
        return FALSE, None
    return ml.contains(k), ml.get(k)


def map_index(I, inst, st, m, k, sp):
    hit, val = map_lookup(I, st, m, k)
    bad = land(st.path, lnot(hit))
    if not I.surely_false(bad):
        I.event(bad, 'lookup of an absent key', I.stack[-1] if I.stack else inst['name'], sp)
    if val is None:
        from interp import Diverged
        raise Diverged('lookup in an empty table')
    return tmp(I, st, val)


@pat(r'(?:collections::(?:HashMap|BTreeMap)|phf::map::Map)::<K, V(?:, \w+)*>::get')
def m_map_get(I, inst, args, st, atys, sp):
    m = as_map(I, st, args[0])
    hit, val = map_lookup(I, st, m, I.read_ptr(st, args[1]))
    if val is None:
        return none(ret_ty(inst))
    return opt(hit, tmp(I, st, val), ret_ty(inst))


def table_seq(I, st, m, op):
    d, k, v = table_items(I, st, m)
    if d.size == 0:
        return EmptySeq()
    if op in ('into_iter', 'drain', 'into_keys', 'into_values'):
        item = k if m.kind.endswith('set') or op == 'into_keys' else v if op == 'into_values' else Agg([k, v], 'tuple')
    else:
        def ref(x):
            return Ptr(I.new_alloc(st, Stack(d, x)), (('i', dimvar(d)),))
        if m.kind.endswith('set') or op == 'keys':
            item = ref(k)
        elif op == 'values':
            item = ref(v)
        else:
            item = Agg([ref(k), ref(v)], 'tuple')
    return TableSeq(d, item)


@pat(r'collections::(?:HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values)')
def m_map_iter(I, inst, args, st, atys, sp, op):
    m = as_map(I, st, args[0]) if not isinstance(args[0], Map) else args[0]
    if op in ('values_mut', 'iter_mut'):
        import lists
        p, m = lists.map_place(I, st, args[0])
        if not small(m):
            raise Unsupported('hash table ' + op)
        return Iter(lists.rows(I, st, m, op, p))
    if op in ('iter', 'keys', 'values', 'into_keys', 'into_values', 'drain'):
        r = Iter(table_seq(I, st, m, op))
        if op == 'drain':
            I.write_ptr(st, args[0], Map((), m.kind))
        return r
    if op == 'retain':
        d, k, v = table_items(I, st, m)
        if d.size == 0:
            return UNIT
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
        pk = tmp(I, st, k)
        if m.kind.endswith('set'):
            keep = callf(I, st, f, fty, [pk])
        else:
            pv = tmp(I, st, v)
            keep = callf(I, st, f, fty, [pk, pv])
            v = I.read_ptr(st, pv)
        I.write_ptr(st, args[0], Map((Entry((I.tick(), d), keep, k, v, None),), m.kind))
        return UNIT
    if op == 'remove':
        d, k, v = table_items(I, st, m)
        x = I.read_ptr(st, args[1])
        if d.size == 0 or not (isinstance(x, Term) and x.is_const):
            raise Unsupported('hash table remove')
        I.write_ptr(st, args[0], Map((Entry((I.tick(), d), lnot(eq(k, x)), k, v, None),), m.kind))
        return Opaque('previous entry')
    raise Unsupported('hash table ' + op)


@reg('<collections::HashMap<K, V, S, A> as iter::IntoIterator>::into_iter', '<collections::HashSet<T, S, A> as iter::IntoIterator>::into_iter')
def m_map_into_iter(I, inst, args, st, atys, sp):
    return Iter(table_seq(I, st, args[0], 'into_iter'))


@reg('<collections::HashMap<K, V, S, A> as clone::Clone>::clone', '<collections::HashMap<K, V, S> as clone::Clone>::clone')
def m_map_clone(I, inst, args, st, atys, sp):
    return as_map(I, st, args[0])


@reg('<collections::HashMap<K, V, S, A> as clone::Clone>::clone_from', '<collections::HashMap<K, V, S> as clone::Clone>::clone_from')
def m_map_clone_from(I, inst, args, st, atys, sp):
    I.write_ptr(st, args[0], as_map(I, st, args[1]))
    return UNIT


@reg('<collections::HashMap<K, V, S, A> as cmp::PartialEq>::eq', '<collections::HashMap<K, V, S> as cmp::PartialEq>::eq')
def m_map_eq(I, inst, args, st, atys, sp):
    return map_eq(I, as_map(I, st, args[0]), as_map(I, st, args[1]))


# ------------------------------------------------------------------ strings
def str_of(I, st, v):
    if isinstance(v, (Str, StrRef)):
        return v.term
    if isinstance(v, Ptr):
        return str_of(I, st, I.read_ptr(st, v))
    if isinstance(v, Union):
        r = None
        for g, x in reversed(v.alts):
            y = str_of(I, st, x)
            r = y if r is None else ite(g, y, r)
        return r
    raise Unsupported('string %r' % (v,))


def split_chars(t):
    """A string term as known characters plus an unknown tail."""
    parts = t.args if t.op == 'concat' else (t,)
    chars = []
    for i, p in enumerate(parts):
        if p.op == 'chr':
            chars.append(p.args[0])
        elif p.is_const:
            chars += [const(ord(c), 'char') for c in p.data]
        elif p.op == 'sym' and i == len(parts) - 1:
            return chars, p
        elif p.op == 'tab':
            dims, arr = p.data
            ls = set(len(x) for x in arr.flat)
            if len(ls) != 1:
                raise not_uniform('characters of a string of varying length', tab(list(dims), np.vectorize(len, otypes=[np.int64])(arr), USIZE))
            for j in range(ls.pop()):
                a = np.array([ord(x[j]) for x in arr.flat], dtype=np.int64).reshape(arr.shape)
                chars.append(tab(list(dims), a, 'char'))
        else:
            raise Unsupported('characters of %r' % (p,))
    return chars, None


def char_seq(I, t):
    if t.op == 'ite':
        a, at = split_chars(t.args[1]) if t.args[1].op != 'ite' else (None, None)
        b, bt = split_chars(t.args[2]) if t.args[2].op != 'ite' else (None, None)
        if a is not None and b is not None and at is None and bt is None and len(a) == len(b):
            return CharSeq([ite(t.args[0], x, y) for x, y in zip(a, b)])
        raise not_uniform('characters of a conditional string', t.args[0])
    c, tail = split_chars(t)
    return CharSeq(c, tail)


@reg('str::<impl str>::chars')
def m_chars(I, inst, args, st, atys, sp):
    return Iter(char_seq(I, str_of(I, st, args[0])))


@reg('str::<impl str>::char_indices')
def m_char_indices(I, inst, args, st, atys, sp):
    s = char_seq(I, str_of(I, st, args[0]))
    if s.tail is not None:
        raise Unsupported('char_indices of an arbitrary string')
    out = []
    pos = usz(0)
    for c in s.chars:
        out.append((TRUE, Agg([pos, c])))
        pos = add(pos, mk('utf8len', USIZE, c))
    return Iter(ListSeq(out))


@reg('str::<impl str>::len', 'string::String::len')
def m_strlen(I, inst, args, st, atys, sp):
    return mk('strlen', USIZE, str_of(I, st, args[0]))


@reg('str::<impl str>::is_empty', 'string::String::is_empty')
def m_str_empty(I, inst, args, st, atys, sp):
    return eq(mk('strlen', USIZE, str_of(I, st, args[0])), usz(0))


@reg('str::<impl str>::parse')
def m_parse(I, inst, args, st, atys, sp):
    f = I.P.find_trait('str::FromStr::from_str', inst['targs'][-1])
    if f is None:
        raise Unsupported('parse')
    return I.call(f, [args[0]], st)


WHITE = [9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


@reg('str::<impl str>::split_whitespace', 'str::<impl str>::split_ascii_whitespace')
def m_split_ws(I, inst, args, st, atys, sp):
    ws = set(WHITE) if inst['np'].endswith('split_whitespace') and 'ascii' not in inst['np'] else {9, 10, 12, 13, 32}
    t = str_of(I, st, args[0])
    words = split_words(I, t, ws)
    return Iter(ListSeq([(TRUE, StrRef(w)) for w in words]))


def split_words(I, t, ws):
    """Words of a string whose characters are each surely white or surely not."""
    parts = t.args if t.op == 'concat' else (t,)
    words, cur = [], None
    for p in parts:
        if p.is_const:
            units = [(sconst(c), ord(c) in ws) for c in p.data]
        else:
            cs, tail = split_chars(p)
            if tail is not None:
                if not any(tail is x for x in getattr(I, 'word_syms', ())):
                    raise Unsupported('words of an arbitrary string')
                units = [(tail, False)]
            else:
                units = []
                for c in cs:
                    if c.is_const:
                        units.append((chrterm(c), c.data in ws))
                        continue
                    f = force(c, 1 << 21)
                    w = np.isin(f.data[1], list(ws))
                    if w.all() or not w.any():
                        units.append((chrterm(c), bool(w.all())))
                    else:
                        raise Unsupported('words of a string with undetermined white space')
        for u, white in units:
            if white:
                if cur is not None:
                    words.append(concat(cur))
                    cur = None
            else:
                cur = (cur or []) + [u]
    if cur is not None:
        words.append(concat(cur))
    return words


@reg('str::<impl str>::to_string', 'str::<impl borrow::ToOwned for str>::to_owned', 'str::<impl str>::to_owned',
     '<string::String as convert::From<&str>>::from', '<string::String as convert::From<&mut str>>::from',
     'str::<impl str>::into_string', 'string::String::into_boxed_str', '<str as string::SpecToString>::spec_to_string',
     'string::<impl borrow::ToOwned for str>::to_owned', 'borrow::<impl borrow::ToOwned for str>::to_owned',
     '<boxed::Box<str> as convert::From<&str>>::from', '<string::String as clone::Clone>::clone',
     '<string::String as str::FromStr>::from_str')
def m_str_owned(I, inst, args, st, atys, sp):
    r = Str(str_of(I, st, args[0]))
    if inst['np'].endswith('from_str'):
        return variant(0, [r], ret_ty(inst))
    return r


@reg('string::String::new', '<string::String as default::Default>::default', 'string::String::with_capacity')
def m_string_new(I, inst, args, st, atys, sp):
    return Str(sconst(''))


@reg('<string::String as ops::Deref>::deref', 'string::String::as_str', '<string::String as convert::AsRef<str>>::as_ref',
     '<str as convert::AsRef<str>>::as_ref', '<string::String as borrow::Borrow<str>>::borrow',
     'str::<impl convert::AsRef<str> for str>::as_ref', 'str::<impl str>::as_ref')
def m_str_ref(I, inst, args, st, atys, sp):
    return StrRef(str_of(I, st, args[0]))


@reg('string::String::push')
def m_str_push(I, inst, args, st, atys, sp):
    s = I.read_ptr(st, args[0])
    I.write_ptr(st, args[0], Str(concat([s.term, chrterm(args[1])])))
    return UNIT


@reg('string::String::push_str', '<string::String as fmt::Write>::write_str', '<string::String as fmt::Write>::write_char',
     '<string::String as ops::AddAssign<&str>>::add_assign')
def m_push_str(I, inst, args, st, atys, sp):
    s = I.read_ptr(st, args[0])
    x = args[1]
    t = chrterm(x) if isinstance(x, Term) else str_of(I, st, x)
    I.write_ptr(st, args[0], Str(concat([s.term, t])))
    return fmt_ok(inst) if 'fmt::Write' in inst['np'] else UNIT


@reg('<string::String as ops::Add<&str>>::add')
def m_str_add(I, inst, args, st, atys, sp):
    return Str(concat([args[0].term, str_of(I, st, args[1])]))


@reg('<string::String as cmp::PartialEq>::eq', 'str::traits::<impl cmp::PartialEq for str>::eq', '<string::String as cmp::PartialEq<str>>::eq',
     "<string::String as cmp::PartialEq<&'a str>>::eq", "<&'a str as cmp::PartialEq<string::String>>::eq", '<str as cmp::PartialEq<string::String>>::eq')
def m_str_eq(I, inst, args, st, atys, sp):
    a, b = str_of(I, st, args[0]), str_of(I, st, args[1])
    r = eq(a, b)
    if r.is_const or 'ite' in (a.op, b.op):
        return r
    try:
        (x, xt), (y, yt) = split_chars(a), split_chars(b)
    except Unsupported:
        return r
    if xt is None and yt is None:
        return land(TRUE, *[eq(i, j) for i, j in zip(x, y)]) if len(x) == len(y) else FALSE
    if (xt is None and len(x) < len(y)) or (yt is None and len(y) < len(x)):
        return FALSE
    return r


@pat(r'str::<impl str>::(trim|trim_start|trim_end|to_ascii_lowercase|to_ascii_uppercase)$')
def m_str_misc(I, inst, args, st, atys, sp, op):
    t = str_of(I, st, args[0])
    if op.startswith('to_ascii'):
        cs, tail = split_chars(t)
        if tail is None:
            return Str(concat([chrterm(ascii_case(c, op.endswith('uppercase'))) for c in cs] or [sconst('')]))
    if op.startswith('trim'):
        return StrRef(trim_term(I, t, op))
    raise Unsupported('string ' + op)


def trim_term(I, t, op):
    cs, tail = split_chars(t)
    if tail is not None:
        raise Unsupported('trim of an arbitrary string')
    # trimming as a function of which characters are white
    def white(c):
        return member(c, WHITE)
    return trimmed(cs, [white(c) for c in cs], op in ('trim', 'trim_start'), op in ('trim', 'trim_end'))


def trimmed(cs, ws, start, end):
    """The characters without those at the ends for which `ws` holds."""
    n = len(cs)
    out = sconst('')
    # result = cs[i..j] for the first non-white i (0 if not start) and last non-white j
    for i in (range(n) if start else [0]):
        gi = land(lnot(ws[i]), *ws[:i]) if start else TRUE
        for j in (range(i + 1, n + 1) if end else [n]):
            gj = land(lnot(ws[j - 1]), *ws[j:]) if end else TRUE
            g = land(gi, gj)
            if g is FALSE:
                continue
            out = ite(g, concat([chrterm(c) for c in cs[i:j]] or [sconst('')]), out)
    return out


def member(c, vals):
    if c.op in ('const', 'tab'):
        return map_char(c, lambda a: np.isin(a, list(vals)), 'bool')
    return lor(FALSE, *[eq(c, const(v, 'char')) for v in vals])


def map_char(c, f, sort):
    if c.is_const:
        v = f(np.array([c.data]))[0]
        return const(v.item(), sort)
    if c.op == 'tab':
        dims, arr = c.data
        return tab(list(dims), f(arr), sort)
    if c.op == 'ite':
        return ite(c.args[0], map_char(c.args[1], f, sort), map_char(c.args[2], f, sort))
    fo = force(c, 1 << 21)
    return map_char(fo, f, sort)


def ascii_case(c, up):
    if up:
        return map_char(c, lambda a: np.where((a >= 97) & (a <= 122), a - 32, a), 'char')
    return map_char(c, lambda a: np.where((a >= 65) & (a <= 90), a + 32, a), 'char')


@pat(r'char::(?:methods::)?<impl char>::(\w+)')
def m_char(I, inst, args, st, atys, sp, op):
    c = args[0]
    if isinstance(c, Ptr):
        c = I.read_ptr(st, c)
    if op == 'to_ascii_uppercase':
        return ascii_case(c, True)
    if op == 'to_ascii_lowercase':
        return ascii_case(c, False)
    if op == 'len_utf8':
        return mk('utf8len', USIZE, c)
    if op in PREDICATES:
        return map_char(c, PREDICATES[op], 'bool')
    if op == 'eq_ignore_ascii_case':
        d = I.read_ptr(st, args[1])
        return eq(ascii_case(c, False), ascii_case(d, False))
    if op in ('to_uppercase', 'to_lowercase'):
        return case_map(c, op == 'to_uppercase')
    return char_op(I, inst, args, st, c, op, sp)


def cased(x, up):
    own = scalars.UNI['upper' if up else 'lower'].get(str(x))
    if own is not None:             # a newer Unicode version than Python's
        return ''.join(map(chr, own))
    return chr(x).upper() if up else chr(x).lower()


def case_map(c, up):
    """to_uppercase/to_lowercase as an iterator; only single-character results for ASCII are exact."""
    if c.is_const:
        s = cased(c.data, up)
        return Iter(ListSeq([(TRUE, const(ord(x), 'char')) for x in s]))

    def conv(k):
        def f(a):
            u, inv = np.unique(a, return_inverse=True)
            out = np.full(u.shape, -1, dtype=np.int64)
            for i, x in enumerate(u):
                s = cased(int(x), up)
                if k < len(s):
                    out[i] = ord(s[k])
            return out[inv].reshape(a.shape)
        return f
    first = map_char(c, conv(0), 'char')
    more = map_char(c, lambda a: conv(1)(a) >= 0, 'bool')
    its = [(TRUE, first)]
    if more is not FALSE:
        third = map_char(c, lambda a: conv(2)(a) >= 0, 'bool')
        its.append((more, map_char(c, lambda a: np.maximum(conv(1)(a), 0), 'char')))
        if third is not FALSE:
            its.append((third, map_char(c, lambda a: np.maximum(conv(2)(a), 0), 'char')))
    return Iter(ListSeq(its))


@reg('char::from_u32', 'char::convert::from_u32')
def m_from_u32(I, inst, args, st, atys, sp):
    x = args[0]
    bad = lor(land(lnot(lt(x, const(0xD800, x.sort))), lt(x, const(0xE000, x.sort))), lnot(lt(x, const(0x110000, x.sort))))
    return opt(lnot(bad), cast(x, 'char'), ret_ty(inst))


@reg('char::from_digit', 'char::convert::from_digit')
def m_from_digit(I, inst, args, st, atys, sp):
    x = args[0]
    return opt(lt(x, const(10, x.sort)), cast(add(x, const(48, x.sort)), 'char'), ret_ty(inst))


# ------------------------------------------------------------------ formatting
class FmtArgs:
    def __init__(self, pieces):
        self.pieces = pieces      # ('lit', str) | ('arg', index, spec)
        self.args = []

    def vmap(self, f):
        return self


def fmt_ok(inst):
    return variant(0, [UNIT], ret_ty(inst))


RESULT_OK = variant(0, [UNIT])


def bytes_of(I, st, v):
    v = I.read_ptr(st, v)
    if isinstance(v, Arr):
        return bytes(x.data for x in v.items)
    from interp import SliceView
    raise Unsupported('format template')


@reg("fmt::Arguments::<'a>::new")
def m_fmt_new(I, inst, args, st, atys, sp):
    t = bytes_of(I, st, args[0])
    av = I.read_ptr(st, args[1])
    fa = FmtArgs([])
    fa.args = list(as_arr(av).items)
    i, nxt = 0, 0
    while True:
        b = t[i]
        if b == 0:
            break
        if b < 0x80:
            fa.pieces.append(('lit', t[i + 1:i + 1 + b].decode('utf8')))
            i += 1 + b
        elif b == 0x80:
            n = t[i + 1] | t[i + 2] << 8
            fa.pieces.append(('lit', t[i + 3:i + 3 + n].decode('utf8')))
            i += 3 + n
        elif b >= 0xC0:
            o = b & 0x3F
            i += 1
            spec = {}
            if o & 1:
                spec['flags'] = int.from_bytes(t[i:i + 4], 'little')
                i += 4
            if o & 2:
                spec['width'] = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if o & 4:
                spec['prec'] = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if o & 8:
                nxt = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if o & 0x10:
                spec['warg'] = spec.pop('width')
            if o & 0x20:
                spec['parg'] = spec.pop('prec')
            fa.pieces.append(('arg', nxt, spec))
            nxt += 1
        else:
            raise Unsupported('format template')
    return Opaque('fmt', fa)


@reg("fmt::Arguments::<'a>::from_str", "fmt::Arguments::<'a>::from_str_nonconst", "fmt::Arguments::<'a>::new_const")
def m_fmt_str(I, inst, args, st, atys, sp):
    t = str_of(I, st, args[0])
    fa = FmtArgs([('term', t)])
    return Opaque('fmt', fa)


@pat(r"fmt::rt::Argument::<'_>::new_(\w+)")
def m_fmt_arg(I, inst, args, st, atys, sp, kind):
    ty = aty(I, inst, atys, 0)
    return Opaque('fmtarg', (kind, args[0], I.P.types[ty]['ty'] if I.P.types[ty]['k'] == 'ref' else ty))


@pat(r"fmt::rt::Argument::<'_>::from_usize")
def m_fmt_usize(I, inst, args, st, atys, sp):
    return Opaque('fmtarg', ('usize', args[0], None))


def render(I, st, v):
    """Text of fmt::Arguments."""
    if not isinstance(v, Opaque) or v.tag != 'fmt':
        raise Unsupported('format arguments')
    out = []
    for p in v.data.pieces:
        if p[0] == 'lit':
            out.append(sconst(p[1]))
        elif p[0] == 'term':
            out.append(p[1])
        else:
            _, k, spec = p
            a = v.data.args[k]
            kind, ptr, ty = a.data
            out.append(fmt_value(I, st, kind, ptr, ty, spec, v.data.args))
    return concat(out) if out else sconst('')


NO_FLAGS = 0x60000020
SIGN, MINUS, ALTERNATE, ZEROS = 1 << 21, 1 << 22, 1 << 23, 1 << 24
NO_OPTS = (NO_FLAGS, None, None)        # flags, width, precision


def options(I, st, spec, args):
    def given(key, argkey):
        if argkey in spec:
            a = args[spec[argkey]]
            v = I.read_ptr(st, a.data[1])
            if not (isinstance(v, Term) and v.is_const):
                raise Unsupported('a format width that varies')
            return int(v.data)
        return spec.get(key)
    w, p = given('width', 'warg'), given('prec', 'parg')
    flags = spec.get('flags')
    flags = NO_FLAGS if flags is None else flags & 0x61FFFFFF
    return (flags, w, p)


def padded(t, opts, number=False):
    """The text t after the padding (and cutting) these options ask for."""
    flags, w, p = opts
    if number:
        if not (flags & SIGN) and not w:
            return t
        p = None
    elif w is None and p is None:
        return t
    if t.op == 'ite':
        return ite(t.args[0], padded(t.args[1], opts, number), padded(t.args[2], opts, number))
    return mk('padstr', 'str', t, usz(flags), usz(0 if w is None else w + 1), usz(0 if p is None else p + 1), usz(int(number)))


def number_text(x, kind, opts):
    if kind in ('display', 'debug'):
        return padded(mk('dispint', 'str', x), opts, True)
    base = {'lower_hex': 16, 'upper_hex': 16, 'binary': 2, 'octal': 8}.get(kind)
    if base is None:
        raise Unsupported('format trait ' + kind)
    alt = opts[0] & ALTERNATE
    if alt and opts[0] & ZEROS and opts[1]:
        raise Unsupported('format options')
    return padded(mk('radix', 'str', x, usz(base), usz(int(kind == 'upper_hex')), usz(int(bool(alt)))), opts, True)


def fmt_value(I, st, kind, ptr, ty, spec, args=()):
    for argkey, key in (('warg', 'width'), ('parg', 'prec')):
        n = I.read_ptr(st, args[spec[argkey]].data[1]) if spec and argkey in spec else None
        if isinstance(n, Term) and not n.is_const:          # one text per width
            r = None
            rest = {k: v for k, v in spec.items() if k != argkey}
            for w in range(most(I, st, n, 200) + 1):
                x = fmt_value(I, st, kind, ptr, ty, dict(rest, **{key: w}), args)
                r = x if r is None else ite(eq(n, const(w, n.sort)), x, r)
            return r
    opts = options(I, st, spec, args) if spec else NO_OPTS
    if kind == 'display':
        return display_ptr(I, st, ptr, ty, opts)
    if kind == 'debug':
        return debug_ptr(I, st, ptr, ty, opts)
    v, _ = peel_ref(I, st, ptr, ty)
    x = I.read_ptr(st, v)
    if isinstance(x, Term) and isinstance(x.sort, tuple):
        return number_text(x, kind, opts)
    raise Unsupported('format trait ' + kind)


def peel_ref(I, st, v, ty):
    t = I.P.types[ty]
    while t['k'] in ('ref',) and not isinstance(v, StrRef):
        v = I.read_ptr(st, v)
        ty = t['ty']
        t = I.P.types[ty]
    while t['k'] == 'ref':
        ty = t['ty']
        t = I.P.types[ty]
    return v, ty


def display_ptr(I, st, ptr, ty, opts=NO_OPTS):
    """ptr refers to a value of type ty."""
    if isinstance(ptr, Ptr) and ptr.meta is None and I.P.types[ty]['k'] == 'ref':
        d = I.read_ptr(st, ptr)
        if isinstance(d, (DynPtr, Union)):
            return display_ptr(I, st, d, I.P.types[ty]['ty'], opts)
    if isinstance(ptr, DynPtr):
        return display_ptr(I, st, ptr.ptr, ptr.ty, opts)
    if isinstance(ptr, Union) and all(isinstance(x, DynPtr) for _, x in ptr.alts):
        r = None
        for g, x in ptr.alts[::-1]:
            y = display_ptr(I, st, x, ty, opts)
            r = y if r is None else ite(g, y, r)
        return r
    v, ty = peel_ref(I, st, ptr, ty)
    t = I.P.types[ty]
    if isinstance(v, StrRef):
        return padded(v.term, opts)
    if t['k'] == 'adt' and t['crate'] in CRATES:
        return call_fmt(I, st, 'fmt::Display::fmt', v, ty, opts)
    x = I.read_ptr(st, v)
    if isinstance(x, (Str, StrRef)):
        return padded(x.term, opts)
    if isinstance(x, Term):
        if x.sort == 'char':
            return padded(chrterm(x), opts)
        if x.sort == 'bool':
            return padded(ite(x, sconst('true'), sconst('false')), opts)
        return number_text(x, 'display', opts)
    if isinstance(x, Opaque) and x.tag == 'fmt':
        return render(I, st, x)
    if t['k'] == 'adt' and norm_path(t['path']) == 'boxed::Box':
        return display_ptr(I, st, Ptr(v.alloc, v.path + (('c',),)), t['args'][0], opts)
    if t['k'] == 'adt' and norm_path(t['path']) == 'borrow::Cow' and isinstance(x, Enum):
        r = None
        for k in sorted(x.vs):
            y = display_term(I, st, x.vs[k][0], t['args'][-1], opts)
            r = y if r is None else ite(is_var(x, k), y, r)
        return r
    raise Unsupported('display of ' + t['name'])


def display_term(I, st, v, ty, opts=NO_OPTS):
    if isinstance(v, Ptr):
        x = I.read_ptr(st, v)
        if isinstance(x, (Agg, Enum)) and isinstance(x.ty, int):
            return display_ptr(I, st, v, x.ty, opts)
        v = x
    if isinstance(v, (Str, StrRef)):
        return padded(v.term, opts)
    if isinstance(v, Term):
        return padded(chrterm(v), opts) if v.sort == 'char' else number_text(v, 'display', opts)
    if isinstance(v, (Agg, Enum)) and isinstance(v.ty, int):
        return display_ptr(I, st, tmp(I, st, v), v.ty, opts)
    raise Unsupported('display of %r' % (v,))


def debug_ptr(I, st, ptr, ty, opts=NO_OPTS):
    """Text of {:?}; text the crate does not determine is an unknown string."""
    if isinstance(ptr, DynPtr):
        ptr, ty = ptr.ptr, ptr.ty
    v, ty = peel_ref(I, st, ptr, ty)
    t = I.P.types[ty]
    if isinstance(v, StrRef):
        return sym('debug', 'str')
    x = I.read_ptr(st, v)
    if isinstance(x, Term) and isinstance(x.sort, tuple):
        return number_text(x, 'debug', opts)
    if t['k'] == 'adt' and t['crate'] in CRATES and I.P.find_trait('fmt::Debug::fmt', ty) is not None:
        return call_fmt(I, st, 'fmt::Debug::fmt', v, ty, opts)
    return sym('debug', 'str')


@reg("fmt::Formatter::<'a>::debug_struct", "fmt::Formatter::<'a>::debug_tuple")
def m_debug_struct(I, inst, args, st, atys, sp):
    emit(I, st, args[0], str_of(I, st, args[1]))
    return Opaque('debugbuilder', args[0])


@pat(r"fmt::(?:builders::)?Debug(Struct|Tuple)::<'a, 'b>::(field|finish|finish_non_exhaustive)")
def m_debug_field(I, inst, args, st, atys, sp, kind, op):
    b = I.read_ptr(st, args[0])
    if op == 'field':
        k = 2 if kind == 'Struct' else 1
        emit(I, st, b.data, concat([sconst(' '), debug_ptr(I, st, args[k], None)]))
        return args[0]
    return RESULT_OK


@pat(r"fmt::Formatter::<'a>::debug_(struct|tuple)_field(s?)(\d?)_finish")
def m_debug_derived(I, inst, args, st, atys, sp, kind, many, n):
    emit(I, st, args[0], str_of(I, st, args[1]))
    for a in args[2:]:
        if isinstance(a, DynPtr):
            emit(I, st, args[0], concat([sconst(' '), debug_ptr(I, st, a, None)]))
        elif isinstance(a, Ptr) and a.meta is not None:
            emit(I, st, args[0], sym('debug', 'str'))
    return RESULT_OK


@trait('fmt::Debug::fmt')
def t_debug(I, inst, args, st, atys, sp):
    ty = I.P.types[aty(I, inst, atys, 0)]
    emit(I, st, args[1], debug_ptr(I, st, args[0], ty['ty'] if ty['k'] == 'ref' else None, opts_of(I, st, args[1])))
    return RESULT_OK


def call_fmt(I, st, item, ptr, ty, opts=NO_OPTS):
    f = I.P.find_trait(item, ty)
    if f is None:
        raise Unsupported('no %s for %s' % (item, I.P.types[ty]['name']))
    a = I.new_alloc(st, Agg([Str(sconst('')), Opaque('options', opts)], 'formatter'))
    r = I.call(f, [ptr, Ptr(a)], st)
    bad = land(st.path, is_var(r, 1)) if isinstance(r, Enum) else FALSE
    if bad is not FALSE:
        raise Unsupported('formatting that can fail')
    return st.mem[a].fields[0].term


def emit(I, st, p, t):
    v = I.read_ptr(st, p)
    if isinstance(v, Ptr):
        p, v = v, I.read_ptr(st, v)
    if isinstance(v, Str):
        I.write_ptr(st, p, Str(concat([v.term, t])))
        return
    if not isinstance(v, Agg) or v.ty != 'formatter':
        raise Unsupported('formatter %r' % (v,))
    I.write_ptr(st, p, Agg([Str(concat([v.fields[0].term, t])), v.fields[1]], 'formatter'))


def opts_of(I, st, p):
    v = I.read_ptr(st, p)
    if isinstance(v, Ptr):
        v = I.read_ptr(st, v)
    if isinstance(v, Agg) and v.ty == 'formatter':
        return v.fields[1].data
    return NO_OPTS


@reg("fmt::Formatter::<'a>::write_fmt", "<fmt::Formatter<'_> as fmt::Write>::write_fmt", 'fmt::Write::write_fmt', '<string::String as fmt::Write>::write_fmt')
def m_write_fmt(I, inst, args, st, atys, sp):
    emit(I, st, args[0], render(I, st, args[1]))
    return fmt_ok(inst)


@reg("fmt::Formatter::<'a>::write_str", "<fmt::Formatter<'_> as fmt::Write>::write_str")
def m_write_str(I, inst, args, st, atys, sp):
    emit(I, st, args[0], str_of(I, st, args[1]))
    return RESULT_OK


@reg("<fmt::Formatter<'_> as fmt::Write>::write_char", "fmt::Formatter::<'a>::write_char")
def m_write_char(I, inst, args, st, atys, sp):
    emit(I, st, args[0], chrterm(args[1]))
    return RESULT_OK


@reg("fmt::Formatter::<'a>::pad")
def m_pad(I, inst, args, st, atys, sp):
    emit(I, st, args[0], padded(str_of(I, st, args[1]), opts_of(I, st, args[0])))
    return RESULT_OK


@reg("fmt::Formatter::<'a>::pad_integral")
def m_pad_integral(I, inst, args, st, atys, sp):
    f, w, p = opts_of(I, st, args[0])
    if f & (SIGN | ALTERNATE) or args[1] is not TRUE:
        raise Unsupported('pad_integral')
    emit(I, st, args[0], padded(str_of(I, st, args[3]), (f, w, None), True))
    return RESULT_OK


@pat(r"fmt::Formatter::<'a>::(alternate|width|precision|sign_plus|fill|sign_minus|sign_aware_zero_pad)")
def m_fmt_opts(I, inst, args, st, atys, sp, op):
    f, w, p = opts_of(I, st, args[0])
    bit = {'alternate': ALTERNATE, 'sign_plus': SIGN, 'sign_minus': MINUS, 'sign_aware_zero_pad': ZEROS}.get(op)
    if bit:
        return boolc(bool(f & bit))
    if op == 'fill':
        return const(f & 0x1FFFFF, 'char')
    v = w if op == 'width' else p
    return none(ret_ty(inst)) if v is None else some(usz(v), ret_ty(inst))


@trait('fmt::Display::fmt')
def t_display(I, inst, args, st, atys, sp):
    ty = I.P.types[aty(I, inst, atys, 0)]
    emit(I, st, args[1], display_ptr(I, st, args[0], ty['ty'] if ty['k'] == 'ref' else None, opts_of(I, st, args[1])))
    return RESULT_OK


@reg('fmt::format', 'fmt::format::format_inner')
def m_format(I, inst, args, st, atys, sp):
    return Str(render(I, st, args[0]))


@trait('string::ToString::to_string')
@reg('<T as string::ToString>::to_string')
def m_to_string(I, inst, args, st, atys, sp):
    ty = aty(I, inst, atys, 0)
    return Str(display_ptr(I, st, args[0], I.P.types[ty]['ty']))


@reg('hint::must_use', 'hint::black_box', 'convert::identity')
def m_must_use(I, inst, args, st, atys, sp):
    return args[0]


# ------------------------------------------------------------------ Option/Result/mem/convert shortcuts
@reg('mem::replace')
def m_replace(I, inst, args, st, atys, sp):
    old = I.read_ptr(st, args[0])
    I.write_ptr(st, args[0], args[1])
    return old


@reg('mem::take')
def m_take(I, inst, args, st, atys, sp):
    old = I.read_ptr(st, args[0])
    if isinstance(old, Str):
        new = Str(sconst(''))
    elif isinstance(old, Vec):
        new = Vec(Arr(()))
    elif isinstance(old, Map):
        new = Map((), old.kind)
    elif isinstance(old, Term):
        new = FALSE if old.sort == 'bool' else const(0, old.sort)
    elif isinstance(old, Enum) and 'Option' in I.P.types[ret_ty(inst)]['name']:
        new = none(old.ty)
    else:
        raise Unsupported('mem::take')
    I.write_ptr(st, args[0], new)
    return old


@reg('mem::swap')
def m_swap(I, inst, args, st, atys, sp):
    a, b = I.read_ptr(st, args[0]), I.read_ptr(st, args[1])
    I.write_ptr(st, args[0], b)
    I.write_ptr(st, args[1], a)
    return UNIT


@reg('mem::drop', 'mem::forget')
def m_drop(I, inst, args, st, atys, sp):
    return UNIT


@reg('mem::discriminant')
def m_discriminant(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    ty = I.P.types[aty(I, inst, atys, 0)]['ty']
    return Agg([I.discriminant(v, ty)], ret_ty(inst))


@reg('intrinsics::discriminant_value')
def m_discriminant_value(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    ty = I.P.types[aty(I, inst, atys, 0)]['ty']
    d = I.discriminant(v, ty)
    s = I.sort_of(ret_ty(inst)) if inst['body'] is not None else ISIZE
    return cast(d, s)


@reg('intrinsics::unlikely', 'intrinsics::likely')
def m_likely(I, inst, args, st, atys, sp):
    return args[0]


@reg('intrinsics::three_way_compare')
def m_three_way(I, inst, args, st, atys, sp):
    a, b = args
    return I.ordering(I.less(a, b), eq(a, b))


@reg('intrinsics::cold_path', 'intrinsics::assume', 'hint::assert_unchecked')
def m_cold(I, inst, args, st, atys, sp):
    return UNIT


@pat(r'intrinsics::(wrapping_add|wrapping_sub|wrapping_mul|unchecked_add|unchecked_sub|unchecked_mul|cttz|ctlz|ctpop|unchecked_shl|unchecked_shr)')
def m_intr(I, inst, args, st, atys, sp, op):
    a = args[0]
    if op.endswith('add'):
        return add(a, args[1])
    if op.endswith('sub'):
        return sub(a, args[1])
    if op.endswith('mul'):
        return mk_ac('mul', a.sort, (a, args[1]))
    if op in ('cttz', 'ctlz', 'ctpop'):
        return mk({'cttz': 'ctz', 'ctlz': 'clz', 'ctpop': 'popcount'}[op], ('u', 32), a)
    return mk(op[-3:], a.sort, a, args[1])


@reg('<T as convert::Into<U>>::into', '<T as convert::From<T>>::from')
def m_into(I, inst, args, st, atys, sp):
    if inst['np'].startswith('<T as convert::From'):
        return args[0]
    return I.call_body(inst, inst['body'], args, st)


@reg('option::Option::<T>::as_ref', 'option::Option::<T>::as_mut', 'result::Result::<T, E>::as_ref')
def m_as_ref(I, inst, args, st, atys, sp):
    p = args[0]
    v = I.read_ptr(st, p)
    vs = {}
    for k, fs in v.vs.items():
        vs[k] = tuple(Ptr(p.alloc, p.path + (('vf', k, i),)) for i in range(len(fs)))
    return Enum(v.disc, vs, ret_ty(inst))


@reg('option::Option::<&T>::copied', 'option::Option::<&T>::cloned', 'option::Option::<&mut T>::copied')
def m_opt_copied(I, inst, args, st, atys, sp):
    v = args[0]
    return Enum(v.disc, {k: tuple(I.read_ptr(st, x) for x in fs) for k, fs in v.vs.items()}, ret_ty(inst))


PANICS = ('option::unwrap_failed', 'result::unwrap_failed', 'option::expect_failed')


@reg('option::Option::<T>::unwrap', 'option::Option::<T>::expect', 'result::Result::<T, E>::unwrap', 'result::Result::<T, E>::expect',
     'result::Result::<T, E>::unwrap_err', 'result::Result::<T, E>::expect_err', 'option::Option::<T>::unwrap_unchecked',
     'result::Result::<T, E>::unwrap_unchecked')
def m_unwrap(I, inst, args, st, atys, sp):
    v = args[0]
    np_ = inst['np']
    ok = 1 if np_.startswith('option') else (1 if np_.endswith('_err') else 0)
    c = is_var(v, ok)
    bad = land(st.path, lnot(c))
    if not I.surely_false(bad):
        I.event(bad, np_.split('::')[-1] + ' of the other variant', I.stack[-1] if I.stack else '', sp)
    if c is FALSE:
        from interp import Diverged
        raise Diverged('unwrap')
    return var_field(v, ok)


# ------------------------------------------------------------------ hashing
@pat(r'hash::impls::<impl hash::Hash for (\w+|\[T\]|.*)>::hash')
def m_hash_prim(I, inst, args, st, atys, sp, tyname):
    v = args[0]
    hash_push(I, st, args[1], v, inst)
    return UNIT


def hash_push(I, st, h, v, inst):
    x = I.read_ptr(st, v) if isinstance(v, Ptr) else v
    if isinstance(x, Ptr):
        return hash_push(I, st, h, x, inst)
    if isinstance(x, (Str, StrRef)):
        t = x.term
    elif isinstance(x, Term):
        t = x
    else:
        raise Unsupported('hash of %r' % (x,))
    while True:
        p = I.read_ptr(st, h)
        if isinstance(p, Ptr):
            h = p
            continue
        break
    if isinstance(p, Vec):
        push(I, st, h, t)
        return
    raise Unsupported('hasher %r' % (p,))


# ------------------------------------------------------------------ randomness
DEALT = None    # definite orderings in place of any ordering, to confirm a violation


def step(I, st, p, what, sp):
    """A rearrangement of the deck: (i, lo, hi) = a swap of place i with a place drawn from lo..hi; 'fixed'; or 'content'."""
    I.effects.append(('step', st.path, p, what, None, sp, I.stack[-1] if I.stack else ''))


@pat(r'<\[T\] as rand::(?:prelude|seq)::SliceRandom>::(shuffle|partial_shuffle|choose|choose_mut)')
def m_shuffle(I, inst, args, st, atys, sp, op):
    p = one_ptr(as_slice_perm(I, st, args[0]))
    I.effects.append((op, st.path, p, args[1], I.P.types[aty(I, inst, atys, 1)]['name'], sp, I.stack[-1] if I.stack else ''))
    if op not in ('shuffle', 'partial_shuffle') or not all(x.is_const for x in p.meta):
        raise Unsupported(op)
    full = Ptr(p.alloc, p.path)
    c = I.norm_content(I.read_ptr(st, full))
    a, n = (x.data for x in p.meta)
    k = n
    if op == 'partial_shuffle':
        if not args[2].is_const:
            raise Unsupported(op)
        k = min(n, args[2].data)
    steps = [(a + i, a, a + i + 1) for i in range(n - 1, max(n - k, 1) - 1, -1)]
    if DEALT is not None and not isinstance(c, Perm):
        if len(steps) != len(as_arr(c).items) - 1:
            raise Unsupported('a part of the deck')
        I.write_ptr(st, full, Arr(list(DEALT[min(sum(e[0] == 'dealt' for e in I.effects), len(DEALT) - 1)])))
        I.effects.append(('dealt', st.path, p, None, None, sp, ''))
    else:
        for s in steps:
            step(I, st, p, s, sp)
        I.write_ptr(st, full, c if isinstance(c, Perm) else Perm(c))
    if op == 'shuffle':
        return UNIT
    return Agg([Ptr(p.alloc, p.path, (usz(a + n - k), usz(k))), Ptr(p.alloc, p.path, (usz(a), usz(n - k)))])


@reg('rand::SeedableRng::seed_from_u64', 'rand::SeedableRng::from_entropy', 'rand_core::SeedableRng::seed_from_u64', 'rand_core::SeedableRng::from_entropy')
def m_seed(I, inst, args, st, atys, sp):
    op = inst['np'].split('::')[-1]
    fixed = op == 'seed_from_u64' and args[0].is_const
    I.effects.append((op, st.path, 'fixed' if fixed else None, None, None, sp, I.stack[-1] if I.stack else ''))
    return Opaque('a seeded generator')


DRAWS = {}      # the sizes of bounded draws


@reg('rand::Rng::gen_range')
def m_gen_range(I, inst, args, st, atys, sp):
    """A number drawn uniformly from a fixed range."""
    t = ret_ty(inst)
    s = I.sort_of(t)
    r = args[1]
    g = args[0]
    I.effects.append(('draw', st.path, None, g, 'bounded', sp, I.stack[-1] if I.stack else ''))
    if not isinstance(r, Agg) or s[0] not in 'ui' or not all(isinstance(x, Term) for x in r.fields[:2]):
        raise Unsupported('draw from %r' % (r,))
    a, b = r.fields[:2]
    if len(r.fields) > 2:
        b = add(b, const(1, b.sort))
    bounds_event(I, inst, st, sp, lt(a, b), 'cannot sample empty range')
    if not a.is_const or not b.is_const:
        raise Unsupported('draw from a range that is not fixed')
    v = sym('a drawn number', s)
    DRAWS[v] = (a.data, b.data)
    return v


@reg('rand::thread_rng', 'rand::rng', 'rand::random')
def m_thread_rng(I, inst, args, st, atys, sp):
    I.effects.append((inst['np'].split('::')[-1], st.path, None, None, None, sp, I.stack[-1] if I.stack else ''))
    return Opaque('thread_rng')


@pat(r'<(?:vroots::)?AnyRng as (?:rand|rand_core)::RngCore>::(next_u32|next_u64|fill_bytes|try_fill_bytes)')
def m_draw(I, inst, args, st, atys, sp, op):
    """Values drawn from the caller's generator: anything."""
    I.effects.append(('draw', st.path, None, args[0], None, sp, I.stack[-1] if I.stack else ''))
    return draw(I, op)


@pat(r'<&?(?:mut )?(?:rand::rngs::)?(?:\w+::)*ThreadRng as (?:rand|rand_core)::RngCore>::(next_u32|next_u64|fill_bytes|try_fill_bytes)')
def m_draw_thread(I, inst, args, st, atys, sp, op):
    I.effects.append(('thread_rng', st.path, None, args[0], None, sp, I.stack[-1] if I.stack else ''))
    return draw(I, op)


DRAW = None     # a definite word in place of any word, to confirm a violation


def draw(I, op):
    if DRAW is not None and op in ('next_u32', 'next_u64'):
        n = 32 if op == 'next_u32' else 64
        return const(DRAW % (1 << n), ('u', n))
    if op == 'next_u32':
        return sym('a random word', ('u', 32))
    if op == 'next_u64':
        return sym('a random word', ('u', 64))
    raise Unsupported('random bytes')


import texts  # noqa: E402,F401  (further transfer functions)
import ordered  # noqa: E402,F401
import lists  # noqa: E402,F401
import scalars  # noqa: E402,F401


# ------------------------------------------------------------------ state that outlasts a call (only within a scenario)
def state_of(I, st, p):
    if isinstance(p, Opaque) or not isinstance(p, Ptr):
        raise Unsupported('state that outlasts the call: %r' % (p,))
    v = I.read_ptr(st, p)
    if isinstance(v, Ptr):
        return state_of(I, st, v)
    if not isinstance(v, Term):
        raise Unsupported('state that outlasts the call holds %r' % (v,))
    return p, v


def without_scenario(I, inst, args, st):
    if inst['body'] is None:
        raise Unsupported('state that outlasts the call')
    return I.call_body(inst, inst['body'], args, st)


def state_op(I, inst, p, v, args, st, op):
    a = args[0] if args else None
    sort = v.sort
    bit = {'fetch_and': 'and', 'fetch_or': 'or', 'fetch_xor': 'xor', 'fetch_nand': 'nand'}
    if op in ('load', 'get', 'into_inner'):
        return v
    if op in ('store', 'set'):
        new, out = a, UNIT
    elif op in ('swap', 'replace'):
        new, out = a, v
    elif op == 'take':
        new, out = FALSE if sort == 'bool' else const(0, sort), v
    elif op == 'fetch_add':
        new, out = add(v, a), v
    elif op == 'fetch_sub':
        new, out = sub(v, a), v
    elif op in ('fetch_max', 'fetch_min'):
        less = I.less(v, a)
        new, out = ite(less, a, v) if op == 'fetch_max' else ite(less, v, a), v
    elif op in bit and sort == 'bool':
        new = {'and': land(v, a), 'or': lor(v, a), 'xor': lnot(eq(v, a)), 'nand': lnot(land(v, a))}[bit[op]]
        out = v
    elif op == 'fetch_not' and sort == 'bool':
        new, out = lnot(v), v
    elif op in bit and op != 'fetch_nand':
        new, out = mk_ac({'and': 'and', 'or': 'or', 'xor': 'xor'}[bit[op]], sort, (v, a)), v
    elif op.startswith('compare_exchange') or op == 'compare_and_swap':
        hit = eq(v, a)
        I.write_ptr(st, p, ite(hit, args[1], v))
        if op == 'compare_and_swap':
            return v
        ty = ret_ty(inst)
        return Enum(ite(hit, const(0, VIDX), const(1, VIDX)), {0: (v,), 1: (v,)}, ty)
    else:
        raise Unsupported('state operation ' + op)
    I.write_ptr(st, p, new)
    return out


@pat(r'sync::atomic::Atomic(?:::<.*>|\w+)?::(\w+)')
def m_atomic(I, inst, args, st, atys, sp, op):
    if not I.held_state:
        return without_scenario(I, inst, args, st)
    p, v = state_of(I, st, args[0])
    if op in ('fetch_update', 'try_update', 'update'):
        f, fty = args[-1], aty(I, inst, atys, len(args) - 1)
        r = I.call_value(f, fty, [v], st)
        if op == 'update':
            I.write_ptr(st, p, r)
            return v
        hit = is_var(r, 1)
        I.write_ptr(st, p, ite(hit, var_field(r, 1), v))
        return Enum(ite(hit, const(0, VIDX), const(1, VIDX)), {0: (v,), 1: (v,)}, ret_ty(inst))
    return state_op(I, inst, p, v, [a for a in args[1:] if isinstance(a, Term)], st, op)


@pat(r'thread::LocalKey::<.*>::(\w+)')
def m_local(I, inst, args, st, atys, sp, op):
    if not I.held_state:
        return without_scenario(I, inst, args, st)
    k = args[0]
    while isinstance(k, Ptr):
        k = I.read_ptr(st, k)
    if not isinstance(k, Opaque) or k.data not in I.held_state:
        raise Unsupported('state that outlasts the call: %r' % (k,))
    p = Ptr(I.held_state[k.data], ())
    if op in ('with', 'try_with'):
        r = I.call_value(args[1], aty(I, inst, atys, 1), [p], st)
        return r if op == 'with' else Enum(const(0, VIDX), {0: (r,)}, ret_ty(inst))
    p = Ptr(p.alloc, (('f', 0), ('f', 0)))
    return state_op(I, inst, p, state_of(I, st, p)[1], args[1:], st, op)
