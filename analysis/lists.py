"""Transfer functions for further iterators, collections and conversions between them."""
from terms import *
from values import *
from seqs import *
import models as M
from models import reg, pat, trait, aty, ret_ty, some, none, opt, is_var, var_field, callf, hold, tmp, CRATES, norm_path, \
    veq_untyped, into_seq, arg_seq, one_ptr, as_slice, content_of, as_arr, slice_elems, early, tested, first_such, refs_in, whole, \
    collect_into, conditional, any_order, seq_of_content, m_slice_len, bounds_event, small, as_map, same_key, poison_refs, most, \
    variant, chrterm, sconst, str_of, Perm, SHORTLIST, self_by_ref
from ordered import compare, unguarded


# ------------------------------------------------------------------ sources
@reg('iter::once', 'iter::sources::once::once')
def m_once(I, inst, args, st, atys, sp):
    return Iter(ListSeq([(TRUE, args[0])]))


@reg('iter::once_with')
def m_once_with(I, inst, args, st, atys, sp):
    return Iter(CallSeq(ListSeq([(TRUE, UNIT)]), hold(I, st, args[0]), aty(I, inst, atys, 0)))


@reg('iter::empty')
def m_empty(I, inst, args, st, atys, sp):
    return Iter(EmptySeq())


@reg('iter::repeat')
def m_repeat(I, inst, args, st, atys, sp):
    return Iter(RepeatSeq(args[0]))


@reg('iter::repeat_with')
def m_repeat_with(I, inst, args, st, atys, sp):
    return Iter(CallSeq(CountFrom(usz(0)), hold(I, st, args[0]), aty(I, inst, atys, 0)))


@reg('iter::repeat_n')
def m_repeat_n(I, inst, args, st, atys, sp):
    n = args[1]
    if n.is_const:
        return Iter(ListSeq([(TRUE, args[0])] * n.data))
    return Iter(ListSeq([(lt(usz(i), n), args[0]) for i in range(most(I, st, n))]))


class SuccSeq(Seq):
    """successors(first, f)"""

    def __init__(self, first, f, fty, limit=None):
        self.first, self.f, self.fty, self.limit = first, f, fty, limit

    def guarded(self):
        return True

    def bounded(self, n):
        return SuccSeq(self.first, self.f, self.fty, n if self.limit is None else min(n, self.limit))

    def items(self, I, st):
        cur, out, alive = self.first, [], TRUE
        while self.limit is None or len(out) < self.limit:
            alive = land(alive, is_var(cur, 1))
            if alive is FALSE or I.surely_false(land(st.path, alive)):
                break
            if len(out) > 300:
                raise Unsupported('iterator that does not end')
            v = var_field(cur, 1)
            out.append((alive, v))
            cur = conditional(I, st, alive, lambda s: I.call_value(self.f, self.fty, [tmp(I, s, v)], s))
            if cur is None:
                break
        return out


@reg('iter::successors')
def m_successors(I, inst, args, st, atys, sp):
    return Iter(SuccSeq(args[0], hold(I, st, args[1]), aty(I, inst, atys, 1)))


# ------------------------------------------------------------------ adapters
@trait('iter::Iterator::cycle')
def t_cycle(I, inst, args, st, atys, sp):
    return Iter(CycleSeq(whole(arg_seq(I, inst, args, st, atys))))


class ScanSeq(Seq):
    def __init__(self, inner, state, f, fty):
        self.inner, self.state, self.f, self.fty = inner, state, f, fty

    def guarded(self):
        return True

    def endless(self):
        return self.inner.endless()

    def at_most(self):
        return self.inner.known_len()

    def bounded(self, n):
        return ScanSeq(self.inner.bounded(n), self.state, self.f, self.fty)

    def items(self, I, st):
        p = Ptr(I.new_alloc(st, self.state))
        out, alive = [], TRUE
        for g, v in self.inner.items(I, st):
            go = land(alive, g)
            r = conditional(I, st, go, lambda s: I.call_value(self.f, self.fty, [p, v], s))
            if r is None:
                continue
            c = is_var(r, 1)
            if land(go, c) is not FALSE:
                out.append((land(go, c), var_field(r, 1)))
            alive = land(alive, lor(lnot(g), c))
            if alive is FALSE:
                break
        return out


@trait('iter::Iterator::scan')
def t_scan(I, inst, args, st, atys, sp):
    return Iter(ScanSeq(whole(arg_seq(I, inst, args, st, atys)), args[1], hold(I, st, args[2]), aty(I, inst, atys, 2)))


@trait('iter::Iterator::partition')
def t_partition(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    tys = I.P.types[ret_ty(inst)]['tys']
    yes, no = [], []
    for g, v in arg_seq(I, inst, args, st, atys).items(I, st):
        c = conditional(I, st, g, lambda s: I.scalar(callf(I, s, f, fty, [tmp(I, s, v)])))
        if c is None:
            continue
        yes.append((land(g, c), v))
        no.append((land(g, lnot(c)), v))
    return Agg([collect_into(I, st, ListSeq([x for x in l if x[0] is not FALSE]), t) for l, t in zip((yes, no), tys)], ret_ty(inst))


@trait('iter::Iterator::unzip')
def t_unzip(I, inst, args, st, atys, sp):
    tys = I.P.types[ret_ty(inst)]['tys']
    its = arg_seq(I, inst, args, st, atys).items(I, st)
    return Agg([collect_into(I, st, ListSeq([(g, M.read_field(I, st, v, k)) for g, v in its]), t) for k, t in enumerate(tys)], ret_ty(inst))


def read_field(I, st, v, k):
    return v.fields[k]


M.read_field = read_field


@trait('iter::Iterator::rposition')
def t_rposition(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    its = [(g, (r, v)) for g, r, v in ranked(early(I, st, s))][::-1]
    return first_such(I, st, args[0], its, lambda q, iv: (I.scalar(callf(I, q, f, fty, [iv[1]])), iv[0]), ret_ty(inst))


@trait('iter::DoubleEndedIterator::rfind')
def t_rfind(I, inst, args, st, atys, sp):
    s, ty = self_by_ref(I, inst, args, st, atys)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    return first_such(I, st, args[0], early(I, st, s)[::-1], lambda q, v: (I.scalar(callf(I, q, f, fty, [tmp(I, q, v)])), v), ret_ty(inst))


@trait('iter::DoubleEndedIterator::rfold')
def t_rfold(I, inst, args, st, atys, sp):
    f, fty = hold(I, st, args[2]), aty(I, inst, atys, 2)
    acc = args[1]
    for g, v in arg_seq(I, inst, args, st, atys).items(I, st)[::-1]:
        acc = M.fold_step(I, st, g, acc, lambda s_, a: callf(I, s_, f, fty, [a, v]))
    return acc


@trait('iter::DoubleEndedIterator::nth_back')
def t_nth_back(I, inst, args, st, atys, sp):
    n = args[1]
    if not n.is_const or n.data > 200:
        raise Unsupported('nth_back of an unknown count')
    p, ty = args[0], I.P.types[aty(I, inst, atys, 0)]['ty']
    v = I.read_ptr(st, p)
    if isinstance(v, Ptr):
        p, ty = v, I.P.types[ty]['ty']
        v = I.read_ptr(st, p)
    own = I.P.find_trait('iter::DoubleEndedIterator::next_back', ty) if isinstance(v, Agg) else None
    r = None
    for _ in range(n.data + 1):
        r = I.call(own, [p], st) if own is not None else M.t_next_back(I, inst, args, st, atys, sp)
    return r


@trait('iter::Iterator::sum', 'iter::Iterator::product')
def t_sum(I, inst, args, st, atys, sp):
    rt = ret_ty(inst)
    t = I.P.types[rt]
    with any_order(I):
        its = arg_seq(I, inst, args, st, atys).items(I, st)
    if t['k'] == 'adt' and norm_path(t['path']) in ('option::Option', 'result::Result'):
        ok = 1 if norm_path(t['path']) == 'option::Option' else 0
        acc = None
        alive, bad = TRUE, None
        inner = []
        for g, v in its:
            c = is_var(v, ok)
            inner.append((land(alive, g, c), var_field(v, ok) if c is not FALSE else None))
            now = land(alive, g, lnot(c))
            if ok == 0 and now is not FALSE:
                e = var_field(v, 1)
                bad = e if bad is None else merge(now, e, bad)
            alive = land(alive, lor(lnot(g), c))
        total = add_up(I, inst, st, [x for x in inner if x[0] is not FALSE], t['args'][0], sp)
        vs = {ok: (total,)}
        if alive is not TRUE:
            vs[1 - ok] = () if ok == 1 else (bad,)
        return Enum(ite(alive, const(ok, VIDX), const(1 - ok, VIDX)), vs, rt)
    return add_up(I, inst, st, its, rt, sp)


def add_up(I, inst, st, its, rt, sp):
    op = 'add' if inst['nt'].endswith('sum') else 'mul'
    s = I.sort_of(rt)
    if not isinstance(s, tuple):
        t = I.P.types[rt]
        if t['k'] == 'adt' and norm_path(t['path']) == 'num::Wrapping' and all(isinstance(v, Agg) for _, v in its):
            s2 = I.sort_of(t['args'][0])
            acc = identity(op, s2)
            for g, v in its:
                acc = ite(g, mk_ac(op, s2, (acc, v.fields[0])), acc)
            return Agg([acc], rt)
        raise Unsupported('sum of %s' % t['name'])
    acc = identity(op, s)
    for g, v in its:
        if isinstance(v, Ptr):
            v = I.read_ptr(st, v)
        v = I.scalar(v)
        bad = land(g, mk('ovf_' + op, 'bool', acc, v), st.path)
        if not I.surely_false(bad):
            I.event(bad, 'overflow ' + op.capitalize(), inst['name'], sp)
        acc = ite(g, mk_ac(op, s, (acc, v)), acc)
    return acc


@trait('iter::Iterator::size_hint')
def t_size_hint(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    rt = ret_ty(inst)
    oty = I.P.types[rt]['tys'][1] if rt is not None else None
    if isinstance(v, Iter):
        n = SubSeq(v.seq, v.i, v.j).known_len()
        h, plain = hinted(v.seq)
        if h is not None and n is not None:
            if not plain:
                raise Unsupported('size hint of an adapted sequence')
            lo, hi = h.hint(n)
            return Agg([usz(lo), none(oty) if hi is None else some(usz(hi), oty)])
        if n is not None:
            return Agg([usz(n), some(usz(n), oty)])
        s = v.seq
        while isinstance(s, MapSeq):
            s = s.inner
        if isinstance(s, FilterSeq) and s.inner.known_len() is not None and not s.inner.guarded() and not v.i and v.j is None:
            return Agg([usz(0), some(usz(s.inner.known_len()), oty)])
        raise Unsupported('size hint of %r' % (v,))
    if isinstance(v, Agg) and inst['body'] is not None:
        return I.call_body(inst, inst['body'], args, st)
    raise Unsupported('size hint of %r' % (v,))


# ------------------------------------------------------------------ slices
@pat(r'slice::<impl \[T\]>::(starts_with|ends_with)')
def m_affix(I, inst, args, st, atys, sp, op):
    xs = slice_elems(I, st, one_ptr(as_slice(I, st, args[0])))
    ys = slice_elems(I, st, one_ptr(as_slice(I, st, args[1])))
    if len(ys) > len(xs):
        return FALSE
    xs = xs[:len(ys)] if op == 'starts_with' else xs[len(xs) - len(ys):]
    return land(TRUE, *[veq_untyped(I, st, x, y) for x, y in zip(xs, ys)])


def part(p, a, b):
    return Ptr(p.alloc, p.path, (add(p.meta[0], usz(a)), usz(b - a)))


@reg('slice::<impl [T]>::rchunks')
def m_rchunks(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    n, k = p.meta[1], args[1]
    if not n.is_const or not k.is_const or k.data == 0:
        raise Unsupported('rchunks')
    out, end = [], n.data
    while end > 0:
        a = max(0, end - k.data)
        out.append((TRUE, part(p, a, end)))
        end = a
    return Iter(ListSeq(out))


def pieces(I, st, p, cuts):
    """Runs between positions; cuts: [condition] for a boundary before position 1..n-1."""
    n = len(cuts) + 1
    out = []
    for a in range(n):
        start = TRUE if a == 0 else cuts[a - 1]
        for b in range(a + 1, n + 1):
            end = TRUE if b == n else cuts[b - 1]
            g = land(start, end, *[lnot(c) for c in cuts[a:b - 1]])
            if g is not FALSE:
                out.append((g, part(p, a, b)))
    return out


@reg('slice::<impl [T]>::chunk_by')
def m_chunk_by(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    if not p.meta[1].is_const or p.meta[1].data > 12:
        raise Unsupported('chunk_by')
    n = p.meta[1].data
    if n == 0:
        return Iter(EmptySeq())
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    xs = [tmp(I, st, x) for x in slice_elems(I, st, p)]
    return Iter(ListSeq(pieces(I, st, p, [lnot(I.scalar(callf(I, st, f, fty, [x, y]))) for x, y in zip(xs, xs[1:])])))


@pat(r'slice::<impl \[T\]>::(split|rsplit|split_inclusive|splitn)')
def m_slice_split(I, inst, args, st, atys, sp, op):
    p = one_ptr(as_slice(I, st, args[0]))
    if op != 'split' or not p.meta[1].is_const or p.meta[1].data > 12:
        raise Unsupported(op)
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    hit = [I.scalar(callf(I, st, f, fty, [tmp(I, st, x)])) for x in slice_elems(I, st, p)]
    n = len(hit)
    out = []
    for a in range(n + 1):
        start = TRUE if a == 0 else hit[a - 1]
        for b in range(a, n + 1):
            end = TRUE if b == n else hit[b]
            g = land(start, end, *[lnot(h) for h in hit[a:b]])
            if g is not FALSE:
                out.append((g, part(p, a, b)))
    return Iter(ListSeq(out))


@reg('array::<impl [T; N]>::each_ref', 'array::<impl [T; N]>::each_mut')
def m_each_ref(I, inst, args, st, atys, sp):
    p = one_ptr(as_slice(I, st, args[0]))
    return Arr([Ptr(p.alloc, p.path + (('i', add(p.meta[0], usz(i))),)) for i in range(p.meta[1].data)])


@reg('slice::<impl [V]>::concat', 'slice::<impl [T]>::concat', 'slice::<impl [S]>::concat')
def m_concat(I, inst, args, st, atys, sp):
    rows = slice_elems(I, st, one_ptr(as_slice(I, st, args[0])))
    if rows and isinstance(rows[0], (Str, StrRef)):
        return Str(concat([str_of(I, st, r) for r in rows]))
    t = I.P.types[ret_ty(inst)]
    if not rows:
        if t['k'] == 'adt' and norm_path(t['path']) == 'string::String':
            return Str(sconst(''))
        return Vec(Arr(()))
    out = []
    for r in rows:
        if isinstance(r, Ptr):
            r = content_of(I, st, one_ptr(as_slice(I, st, r)))
        elif isinstance(r, Vec):
            r = I.norm_content(r.content)
        r = as_arr(r)
        if not isinstance(r, Arr):
            raise Unsupported('concat')
        out += list(r.items)
    return Vec(Arr(out))


def search_sorted(I, st, items, test):
    """binary_search's answer on items in order: test(x) -> (less than target, equal)."""
    lows, eqs = [], []
    for x in items:
        l, e = test(x)
        lows.append(l)
        eqs.append(e)
    return lows, eqs


@pat(r'slice::<impl \[T\]>::(binary_search\w*|partition_point)')
def m_bsearch(I, inst, args, st, atys, sp, op):
    # executed as written in the standard library: which match is found is part of its behaviour
    if inst['body'] is None:
        raise Unsupported(op)
    return I.call_body(inst, inst['body'], args, st)


@pat(r'slice::<impl \[T\]>::select_nth_unstable(_by|_by_key)?')
def m_select_nth(I, inst, args, st, atys, sp, op):
    p = one_ptr(as_slice(I, st, args[0]))
    k = args[1]
    if not k.is_const or not p.meta[1].is_const:
        raise Unsupported('select_nth_unstable')
    n = p.meta[1].data
    if k.data >= n:
        I.event(st.path, 'select_nth_unstable out of bounds', inst['name'], sp)
        raise Unsupported('select_nth_unstable out of bounds')
    if op:
        raise Unsupported('select_nth_unstable' + op)
    M.m_sort(I, inst, [args[0]], st, [aty(I, inst, atys, 0)], sp, 'sort_unstable')
    return Agg([part(p, 0, k.data), Ptr(p.alloc, p.path + (('i', add(p.meta[0], k)),)), part(p, k.data + 1, n)], ret_ty(inst))


# ------------------------------------------------------------------ boxes and literals
@pat(r'boxed::Box::<T>::new_uninit|boxed::Box::<T, A>::new_uninit_in')
def m_new_uninit(I, inst, args, st, atys, sp):
    return Agg([UNDEF], 'box')


@reg('boxed::box_new')
def m_box_new(I, inst, args, st, atys, sp):
    return Agg([args[0]], 'box')


@reg('boxed::box_assume_init_into_vec_unsafe')
def m_into_vec_unsafe(I, inst, args, st, atys, sp):
    v = args[0]
    while isinstance(v, Agg):
        v = v.fields[1] if v.ty != 'box' and len(v.fields) > 1 else v.fields[0]
    if not isinstance(v, (Arr, Stack)):
        raise Unsupported('vec! of %r' % (v,))
    return Vec(v)


# ------------------------------------------------------------------ conversions
SEQS = ('vec::Vec', 'boxed::Box', 'collections::VecDeque', 'collections::LinkedList', 'collections::BinaryHeap')
TABLES = ('collections::HashSet', 'collections::BTreeSet', 'collections::HashMap', 'collections::BTreeMap')


def shape(I, ty):
    t = I.P.types[ty]
    if t['k'] == 'adt':
        return norm_path(t['path'])
    return t['k']


def contents(I, st, v):
    """An array, slice reference, Vec or box of a slice, as its content."""
    while isinstance(v, Ptr):
        if v.meta is not None:
            return content_of(I, st, v)
        v = I.read_ptr(st, v)
    if isinstance(v, Vec):
        return I.norm_content(v.content)
    if isinstance(v, Agg) and v.ty == 'box':
        return contents(I, st, v.fields[0])
    if isinstance(v, (Arr, Stack)):
        return v
    raise Unsupported('contents of %r' % (v,))


@trait('convert::From::from')
def t_from(I, inst, args, st, atys, sp):
    rt = ret_ty(inst)
    if rt is None:
        raise Unsupported('conversion ' + inst['name'])
    v = args[0]
    src = aty(I, inst, atys, 0)
    if src == rt:
        return v
    to, frm = shape(I, rt), shape(I, I.P.peel(src))
    t = I.P.types[rt]
    if to == 'string::String' or (to == 'boxed::Box' and shape(I, t['args'][0]) == 'str'):
        if isinstance(v, Term) and v.sort == 'char':
            return Str(chrterm(v))
        return Str(str_of(I, st, v))
    if to == 'borrow::Cow':
        byref = isinstance(v, (StrRef, Ptr))
        return variant(0 if byref else 1, [v], rt)
    if to == 'vec::Vec' and frm in ('string::String', 'str'):
        import texts
        return texts.m_into_bytes(I, inst, [Str(str_of(I, st, v))], st, atys, sp)
    if to in ('vec::Vec', 'boxed::Box', 'collections::VecDeque') and (frm in ('array', 'slice', 'vec::Vec', 'boxed::Box', 'collections::VecDeque')):
        if to == 'boxed::Box' and shape(I, t['args'][0]) != 'slice':
            if frm == 'array' and src == t['args'][0]:
                return Agg([v], 'box')
            raise Unsupported('conversion ' + inst['name'])
        return Vec(contents(I, st, v))
    if to == 'boxed::Box' and t['args'][0] == src:
        return Agg([v], 'box')
    if to in TABLES and frm in ('array',):
        return collect_into(I, st, into_seq(I, v, src, st), rt)
    if to == 'collections::BinaryHeap':
        return collect_into(I, st, seq_of_content(I, contents(I, st, v)), rt)
    if to == 'option::Option' and t['args'] and t['args'][0] == src:
        return some(v, rt)
    if inst['body'] is not None:
        return I.call_body(inst, inst['body'], args, st)
    raise Unsupported('conversion ' + inst['name'])


@trait('convert::TryFrom::try_from')
def t_try_from(I, inst, args, st, atys, sp):
    rt = ret_ty(inst)
    if rt is not None and len(args) == 1:
        ok = I.P.types[rt]['args'][0]
        if shape(I, ok) == 'array' and shape(I, aty(I, inst, atys, 0)) in ('vec::Vec', 'boxed::Box'):
            c = as_arr(contents(I, st, args[0]))
            if isinstance(c, Ragged):
                n = int(I.P.types[ok]['len'])
                bad = variant(1, [args[0]], rt)
                if len(c.items) < n:
                    return bad
                return merge(eq(c.n, usz(n)), variant(0, [Arr(c.items[:n])], rt), bad)
            if not isinstance(c, Arr):
                raise Unsupported('array from a list of unknown length')
            if len(c.items) != int(I.P.types[ok]['len']):
                return variant(1, [args[0]], rt)
            return variant(0, [Arr(c.items)], rt)
    if inst['body'] is None:
        raise Unsupported('conversion ' + inst['name'])
    return I.call_body(inst, inst['body'], args, st)


@trait('default::Default::default')
def t_default(I, inst, args, st, atys, sp):
    rt = ret_ty(inst)
    if rt is None:
        raise Unsupported('default ' + inst['name'])
    v = default_of(I, rt)
    if v is not None:
        return v
    if inst['body'] is None:
        raise Unsupported('default ' + inst['name'])
    return I.call_body(inst, inst['body'], args, st)


def default_of(I, ty):
    s = I.sort_of(ty)
    if s is not None:
        return FALSE if s == 'bool' else const(0, s)
    n = shape(I, ty)
    if n in ('vec::Vec', 'collections::VecDeque', 'collections::BinaryHeap'):
        return Vec(Arr(())) if n != 'collections::BinaryHeap' else Heap(())
    if n == 'string::String':
        return Str(sconst(''))
    if n in TABLES:
        return Map((), ('b' if 'BTree' in n else '') + ('set' if n.endswith('Set') else 'map'))
    if n == 'option::Option':
        return none(ty)
    if n == 'ref' and I.P.types[I.P.types[ty]['ty']]['k'] == 'str':
        return StrRef(sconst(''))
    return None


# ------------------------------------------------------------------ ordered tables
@pat(r'collections::(BTreeMap|BTreeSet)::<.*>::new')
def m_btree_new(I, inst, args, st, atys, sp, what):
    return Map((), 'bmap' if what == 'BTreeMap' else 'bset')


class BagSeq(ListSeq):
    """The entries of a small hash table, whose order is unknown."""

    def ask(self, I):
        if not getattr(I, 'order_free', False) and len(self.its) > 1:
            raise Unsupported('iteration order of a hash table')

    def items(self, I, st):
        self.ask(I)
        return ListSeq.items(self, I, st)

    def get(self, I, st, i):
        self.ask(I)
        return ListSeq.get(self, I, st, i)

    def vmap(self, f):
        return BagSeq([(f(g), vmap(v, f)) for g, v in self.its])


def live_entries(I, st, m):
    """[(guard, key, value)]: one per key, first key and last value."""
    out = []
    es = m.entries
    for i, e in enumerate(es):
        first = land(e.guard, *[lnot(land(f.guard, same_key(I, st, m, f.key, e.key))) for f in es[:i]])
        if first is FALSE:
            continue
        val = e.value
        if val is not None:
            for f in es[i + 1:]:
                c = land(f.guard, same_key(I, st, m, f.key, e.key))
                if c is not FALSE:
                    val = merge(c, f.value, val)
        out.append((first, e.key, val))
    return out


def in_order(I, st, ents):
    """Guarded entries sorted by key: absent ones go last."""
    xs = list(ents)
    n = len(xs)
    if n > 10:
        raise Unsupported('order of many entries')
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            less = land(b[0], lor(lnot(a[0]), is_var(compare(I, st, b[1], a[1]), 0)))
            if less is FALSE:
                continue
            xs[j], xs[j + 1] = tuple(pick(less, y, x) for x, y in zip(a, b)), tuple(pick(less, x, y) for x, y in zip(a, b))
    return [x for x in xs if x[0] is not FALSE]


def pick(c, x, y):
    if x is None and y is None:
        return None
    return merge(c, x, y)


def entries_of(I, st, m):
    ents = live_entries(I, st, m)
    return in_order(I, st, ents) if m.kind[0] == 'b' else ents


def rows(I, st, m, op, p=None):
    """The iterator of a small table."""
    byval = op in ('into_iter', 'drain', 'into_keys', 'into_values')
    isset = m.kind.endswith('set')
    out = []
    for g, k, v in entries_of(I, st, m):
        if byval:
            item = k if isset or op == 'into_keys' else v if op == 'into_values' else Agg([k, v], 'tuple')
        else:
            pk = tmp(I, st, k)
            if op in ('values_mut', 'iter_mut') and p is not None:
                pv = slot(I, st, p, m, k)
            else:
                pv = tmp(I, st, v) if v is not None else None
            item = pk if isset or op == 'keys' else pv if op in ('values', 'values_mut') else Agg([pk, pv], 'tuple')
        out.append((g, item))
    return ListSeq(out) if m.kind[0] == 'b' else BagSeq(out)


_old_table_seq = M.table_seq


def table_seq(I, st, m, op):
    if small(m) and (len(m.entries) <= 10 or not const_table(m)):
        return rows(I, st, m, op)
    s = _old_table_seq(I, st, m, op)
    if m.kind[0] == 'b' and isinstance(s, StackSeq):
        ml = I.finalize_map(m)
        if ml.ksort == 'str':
            raise Unsupported('order of a table of strings')
        return StackSeq(s.dim, s.item)
    return s


def const_table(m):
    return all(e.guard.is_const and isinstance(e.key, Term) and not e.key.syms for e in m.entries)


M.table_seq = table_seq


class KeyRef:
    """The slot of a key in a small table: which entries are that key's."""

    def __init__(self, I, st, m, k):
        self.k = k
        self.conds = [(e, same_key(I, st, m, e.key, k)) for e in m.entries]

    def read(self, m):
        val = None
        for e in m.entries:
            c = TRUE if e.key is self.k else next((c for x, c in self.conds if x is e or x.key is e.key), None)
            if c is None:
                raise Unsupported('a table changed under a reference into it')
            c = land(c, e.guard)
            if c is FALSE:
                continue
            val = e.value if val is None else merge(c, e.value, val)
        if val is None:
            raise Unsupported('the slot of an absent key')
        return val

    def write(self, I, m, v):
        return type(m)(m.entries + (Entry((I.tick(),), TRUE, self.k, v, None),), m.kind)


def slot(I, st, p, m, k):
    return Ptr(p.alloc, p.path + (('mk', KeyRef(I, st, m, k)),))


def map_place(I, st, p):
    v = I.read_ptr(st, p)
    while isinstance(v, Ptr):
        p = v
        v = I.read_ptr(st, p)
    if not isinstance(v, Map):
        raise Unsupported('table %r' % (v,))
    return p, v


def put(m, tick, g, k, v, sp=None):
    return type(m)(m.entries + (Entry((tick,), g, k, v, sp),), m.kind)


@pat(r'collections::(?:HashMap|BTreeMap|hash_map::HashMap|btree_map::BTreeMap)::<.*>::(entry)')
def m_entry(I, inst, args, st, atys, sp, op):
    p, m = map_place(I, st, args[0])
    if not small(m):
        raise Unsupported('entry of a table that is being filled')
    return Opaque('entry', (p, args[1], ret_ty(inst)))


ENTRY = r'collections::(?:hash_map|btree_map|map|btree::map|hash::map|btree::map::entry|hash_map::entry|btree_map::entry)(?:::entry)?::Entry::<.*>::(\w+)'


@pat(ENTRY)
def m_entry_op(I, inst, args, st, atys, sp, op):
    e = args[0]
    if not isinstance(e, Opaque) or e.tag != 'entry':
        raise Unsupported('entry %r' % (e,))
    p, k, _ = e.data
    m = I.read_ptr(st, p)
    has = M.small_contains(I, st, m, k)
    place = slot(I, st, p, m, k)
    if op == 'and_modify':
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
        if has is not FALSE:
            conditional(I, st, has, lambda s: callf(I, s, f, fty, [place]))
        return e
    if op == 'key':
        raise Unsupported('entry key')
    if op in ('or_insert', 'or_default', 'or_insert_with', 'or_insert_with_key'):
        new = lnot(has)
        if new is not FALSE:
            if op == 'or_insert':
                v = args[1]
            elif op == 'or_default':
                vt = I.P.types[ret_ty(inst)]['ty']
                v = default_of(I, vt)
                if v is None:
                    d = I.P.find_trait('default::Default::default', vt)
                    if d is None:
                        raise Unsupported('default value of a table')
                    v = conditional(I, st, new, lambda s: I.call(d, [], s))
            elif op == 'or_insert_with':
                v = conditional(I, st, new, lambda s: callf(I, s, args[1], aty(I, inst, atys, 1), []))
            else:
                v = conditional(I, st, new, lambda s: callf(I, s, args[1], aty(I, inst, atys, 1), [tmp(I, s, k)]))
            m = I.read_ptr(st, p)
            I.write_ptr(st, p, put(m, I.tick(), new, k, v, sp))
        return place
    raise Unsupported('entry ' + op)


@pat(r'collections::(?:HashMap|BTreeMap)::<.*>::(get_mut)')
def m_get_mut(I, inst, args, st, atys, sp, op):
    p, m = map_place(I, st, args[0])
    k = I.read_ptr(st, args[1])
    if not small(m):
        raise Unsupported('get_mut of a large table')
    has = M.small_contains(I, st, m, k)
    return opt(has, slot(I, st, p, m, k) if has is not FALSE else None, ret_ty(inst))


def without(I, st, m, k):
    return type(m)([e._replace(guard=land(e.guard, lnot(same_key(I, st, m, e.key, k)))) for e in m.entries], m.kind)


@pat(r'collections::(?:HashMap|BTreeMap|HashSet|BTreeSet)::<.*>::(remove|take|remove_entry|retain)')
def m_remove(I, inst, args, st, atys, sp, op):
    p, m = map_place(I, st, args[0])
    if not small(m) or len(m.entries) > 24:
        return M.m_map_iter(I, inst, args, st, atys, sp, op)
    if op == 'retain':
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
        out = []
        with any_order(I):
            for g, k, v in entries_of(I, st, m):
                pv = tmp(I, st, v) if v is not None else None
                c = conditional(I, st, g, lambda s: I.scalar(callf(I, s, f, fty, [tmp(I, s, k)] + ([pv] if pv is not None else []))))
                if c is not None and land(g, c) is not FALSE:
                    out.append(Entry((I.tick(),), land(g, c), k, I.read_ptr(st, pv) if pv is not None else None, None))
        I.write_ptr(st, p, type(m)(out, m.kind))
        return UNIT
    k = I.read_ptr(st, args[1])
    hit, val = M.map_lookup(I, st, m, k)
    I.write_ptr(st, p, without(I, st, m, k))
    rt = I.P.types[ret_ty(inst)]
    if rt['k'] == 'bool' or I.sort_of(ret_ty(inst)) == 'bool':
        return hit
    if op == 'remove' and val is not None:
        return opt(hit, val, ret_ty(inst))
    if hit is FALSE:
        return none(ret_ty(inst))
    if op == 'take':
        return opt(hit, k, ret_ty(inst))
    raise Unsupported('table ' + op)


@pat(r'collections::(?:HashMap|BTreeMap)::<.*>::insert')
def m_insert(I, inst, args, st, atys, sp):
    p, m = map_place(I, st, args[0])
    old = Opaque('previous entry')
    if small(m) and len(m.entries) <= 24:
        try:
            hit, val = M.map_lookup(I, st, m, args[1])
            old = none(ret_ty(inst)) if val is None else opt(hit, val, ret_ty(inst))
        except Unsupported:
            pass
    I.write_ptr(st, p, put(m, I.tick(), TRUE, args[1], args[2], sp))
    return old


@pat(r'collections::(?:HashMap|BTreeMap)::<.*>::clear|collections::(?:HashSet|BTreeSet)::<.*>::clear')
def m_clear(I, inst, args, st, atys, sp):
    p, m = map_place(I, st, args[0])
    I.write_ptr(st, p, Map((), m.kind))
    return UNIT


@pat(r'collections::(?:BTreeMap|BTreeSet)::<.*>::(first|last|first_key_value|last_key_value|pop_first|pop_last)')
def m_ends(I, inst, args, st, atys, sp, op):
    p, m = map_place(I, st, args[0])
    if not small(m):
        raise Unsupported('table ' + op)
    ents = entries_of(I, st, m)
    if op.startswith('last') or op.endswith('last'):
        # present entries come first: the last present one
        ents = ents[::-1]
    hit, k, v = FALSE, None, None
    for g, a, b in ents[::-1]:
        k = a if k is None else merge(g, a, k)
        v = b if v is None else merge(g, b, v)
        hit = lor(hit, g)
    if hit is FALSE:
        return none(ret_ty(inst))
    isset = m.kind.endswith('set')
    if op.startswith('pop'):
        def gone(s):
            I.write_ptr(s, p, without(I, s, I.read_ptr(s, p), k))
        conditional(I, st, hit, gone)
        return opt(hit, k if isset else Agg([k, v], 'tuple'), ret_ty(inst))
    return opt(hit, tmp(I, st, k) if isset else Agg([tmp(I, st, k), tmp(I, st, v)], 'tuple'), ret_ty(inst))


@pat(r'collections::(?:BTreeMap|BTreeSet)::<.*>::range')
def m_btree_range(I, inst, args, st, atys, sp):
    p, m = map_place(I, st, args[0])
    if not small(m):
        raise Unsupported('range of a table')
    r = args[1]
    name = shape(I, aty(I, inst, atys, 1)).split('::')[-1]
    isset = m.kind.endswith('set')
    out = []
    for g, k, v in entries_of(I, st, m):
        c = TRUE
        if name in ('Range', 'RangeInclusive', 'RangeFrom'):
            c = land(c, lnot(is_var(compare(I, st, k, r.fields[0]), 0)))
        if name == 'Range':
            c = land(c, is_var(compare(I, st, k, r.fields[1]), 0))
        elif name == 'RangeInclusive':
            c = land(c, lnot(is_var(compare(I, st, k, r.fields[1]), 2)))
        elif name == 'RangeTo':
            c = land(c, is_var(compare(I, st, k, r.fields[0]), 0))
        elif name == 'RangeToInclusive':
            c = land(c, lnot(is_var(compare(I, st, k, r.fields[0]), 2)))
        elif name not in ('RangeFrom', 'RangeFull'):
            raise Unsupported('range ' + name)
        if land(g, c) is not FALSE:
            out.append((land(g, c), tmp(I, st, k) if isset else Agg([tmp(I, st, k), tmp(I, st, v)], 'tuple')))
    return Iter(ListSeq(out))


# sets
@pat(r'collections::(?:HashSet|BTreeSet)::<.*>::(is_subset|is_superset|is_disjoint)')
def m_set_rel(I, inst, args, st, atys, sp, op):
    a, b = as_map(I, st, args[0]), as_map(I, st, args[1])
    if not small(a) or not small(b) or len(a.entries) * len(b.entries) > 2000:
        raise Unsupported('sets ' + op)
    if op == 'is_superset':
        a, b = b, a
    r = TRUE
    for e in a.entries:
        c = M.small_contains(I, st, b, e.key)
        r = land(r, lor(lnot(e.guard), lnot(c) if op == 'is_disjoint' else c))
    return r


@pat(r'collections::(?:HashSet|BTreeSet)::<.*>::(intersection|difference|union)')
def m_set_op(I, inst, args, st, atys, sp, op):
    a, b = as_map(I, st, args[0]), as_map(I, st, args[1])
    if not small(a) or not small(b) or len(a.entries) + len(b.entries) > 24:
        raise Unsupported('sets ' + op)
    if op == 'union':
        m = Map(a.entries + b.entries, a.kind)
    else:
        keep = (lambda c: c) if op == 'intersection' else lnot
        m = Map([e._replace(guard=land(e.guard, keep(M.small_contains(I, st, b, e.key)))) for e in a.entries], a.kind)
    return Iter(rows(I, st, m, 'iter'))


# ------------------------------------------------------------------ binary heaps
class Heap(V):
    __slots__ = ('its',)

    def __init__(self, its):
        self.its = tuple(its)          # (guard, value), unordered

    def __repr__(self):
        return 'Heap%d' % len(self.its)


def heap_of(I, st, p):
    v = I.read_ptr(st, p)
    if isinstance(v, Vec) and isinstance(v.content, Arr):
        v = Heap([(TRUE, x) for x in v.content.items])
    if not isinstance(v, Heap):
        raise Unsupported('heap %r' % (v,))
    return v


def top(I, st, its):
    """(present, largest, rest)"""
    xs = list(its)
    for j in range(len(xs) - 1):
        a, b = xs[j], xs[j + 1]
        up = land(a[0], lor(lnot(b[0]), is_var(compare(I, st, a[1], b[1]), 2)))
        if up is FALSE:
            continue
        xs[j], xs[j + 1] = (merge(up, b[0], a[0]), merge(up, b[1], a[1])), (merge(up, a[0], b[0]), merge(up, a[1], b[1]))
    if not xs:
        return FALSE, None, []
    return xs[-1][0], xs[-1][1], [x for x in xs[:-1] if x[0] is not FALSE]


@pat(r'collections::BinaryHeap::<.*>::(\w+)')
def m_heap(I, inst, args, st, atys, sp, op):
    if op in ('new', 'with_capacity'):
        return Heap(())
    if op in ('into_sorted_vec', 'into_vec'):
        h = args[0]
        if not isinstance(h, Heap) or op == 'into_vec':
            raise Unsupported('heap ' + op)
        out, its = [], list(h.its)
        if any(g is not TRUE for g, _ in its):
            raise Unsupported('heap of unknown size')
        while its:
            _, x, its = top(I, st, its)
            out.append(x)
        return Vec(Arr(out[::-1]))
    h = heap_of(I, st, args[0])
    if op == 'push':
        I.write_ptr(st, args[0], Heap(h.its + ((TRUE, args[1]),)))
        return UNIT
    if op in ('len', 'is_empty'):
        n = usz(0)
        for g, _ in h.its:
            n = add(n, ite(g, usz(1), usz(0)))
        return n if op == 'len' else eq(n, usz(0))
    g, x, rest = top(I, st, h.its)
    if op == 'pop':
        I.write_ptr(st, args[0], Heap(rest))
        return none(ret_ty(inst)) if x is None else opt(g, x, ret_ty(inst))
    if op == 'peek':
        return none(ret_ty(inst)) if x is None else opt(g, tmp(I, st, x), ret_ty(inst))
    raise Unsupported('heap ' + op)


_old_collect = M.collect_into


def collect_into_heap(I, st, s, ty):
    if shape(I, ty) == 'collections::BinaryHeap':
        with any_order(I):
            return Heap(s.items(I, st))
    return _old_collect(I, st, s, ty)


M.collect_into = collect_into_heap
collect_into = collect_into_heap


# ------------------------------------------------------------------ itertools
@trait('itertools::Itertools::counts')
def t_counts(I, inst, args, st, atys, sp):
    with any_order(I):
        its = arg_seq(I, inst, args, st, atys).items(I, st)
    es = []
    for i, (g, k) in enumerate(its):
        n = usz(0)
        for h, j in its[:i + 1]:
            n = add(n, ite(land(h, veq_untyped(I, st, j, k)), usz(1), usz(0)))
        es.append(Entry((I.tick(),), g, k, n, None))
    return Map(es, 'map')


@trait('itertools::Itertools::tuple_windows')
def t_tuple_windows(I, inst, args, st, atys, sp):
    its = arg_seq(I, inst, args, st, atys).items(I, st)
    xs = unguarded(its)
    rt = ret_ty(inst)
    item = [k for k in inst['targs'][1:] if I.P.types[k]['k'] == 'tuple']
    if not item:
        raise Unsupported('tuple_windows')
    k = len(I.P.types[item[0]]['tys'])
    return Iter(ListSeq([(TRUE, Agg(xs[i:i + k], item[0])) for i in range(len(xs) - k + 1)]))


@trait('itertools::Itertools::tuples')
def t_tuples(I, inst, args, st, atys, sp):
    xs = unguarded(arg_seq(I, inst, args, st, atys).items(I, st))
    item = [k for k in inst['targs'][1:] if I.P.types[k]['k'] == 'tuple']
    if not item:
        raise Unsupported('tuples')
    k = len(I.P.types[item[0]]['tys'])
    return Iter(ListSeq([(TRUE, Agg(xs[i:i + k], item[0])) for i in range(0, len(xs) - k + 1, k)]))


@trait('itertools::Itertools::dedup')
def t_dedup(I, inst, args, st, atys, sp):
    xs = unguarded(arg_seq(I, inst, args, st, atys).items(I, st))
    return Iter(ListSeq([(TRUE if i == 0 else lnot(veq_untyped(I, st, xs[i - 1], x)), x) for i, x in enumerate(xs)]))


@trait('itertools::Itertools::sorted', 'itertools::Itertools::sorted_unstable', 'itertools::Itertools::sorted_by', 'itertools::Itertools::sorted_unstable_by',
       'itertools::Itertools::sorted_by_key', 'itertools::Itertools::sorted_unstable_by_key', 'itertools::Itertools::sorted_by_cached_key')
def t_sorted(I, inst, args, st, atys, sp):
    xs = unguarded(arg_seq(I, inst, args, st, atys).items(I, st))
    if len(xs) > 9:
        raise Unsupported('sorting a long list')
    op = inst['nt'].split('::')[-1]
    keys = xs
    if op != 'sorted' and op != 'sorted_unstable':
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    if op.endswith('_key'):
        keys = [callf(I, st, f, fty, [tmp(I, st, x)]) for x in xs]
    if op.endswith('_by'):
        less = lambda a, b: is_var(callf(I, st, f, fty, [tmp(I, st, a), tmp(I, st, b)]), 0)
    else:
        less = lambda a, b: is_var(compare(I, st, a, b), 0)
    ks, vs = list(keys), list(xs)
    n = len(vs)
    for i in range(n):
        for j in range(n - 1 - i):
            g = less(ks[j + 1], ks[j])
            if g is FALSE:
                continue
            if ks is not vs:
                ks[j], ks[j + 1] = merge(g, ks[j + 1], ks[j]), merge(g, ks[j], ks[j + 1])
            vs[j], vs[j + 1] = merge(g, vs[j + 1], vs[j]), merge(g, vs[j], vs[j + 1])
    return Iter(ListSeq([(TRUE, v) for v in vs]))


@trait('itertools::Itertools::fold_ok')
def t_fold_ok(I, inst, args, st, atys, sp):
    raise Unsupported('fold_ok')


# ------------------------------------------------------------------ editing lists
def listed(I, st, p):
    """The items of a list as (present, value), for lists of a modest size."""
    v = I.read_ptr(st, p)
    if not isinstance(v, Vec) or isinstance(v.content, (Perm, OpenLog)):
        raise Unsupported('editing %r' % (v,))
    c = v.content
    if isinstance(c, Stack) and c.dim.size > 128:
        raise Unsupported('editing a long list')
    its = seq_of_content(I, as_arr(c)).items(I, st)
    if len(its) > 300:
        raise Unsupported('editing a long list')
    return its


def relist(I, st, p, its):
    its = [x for x in its if x[0] is not FALSE]
    if all(g is TRUE for g, _ in its):
        v = Vec(Arr([x for _, x in its]))
    else:
        v = Vec(Log([Entry((), g, None, x, None) for g, x in its]))
    if p is None:
        return v
    I.write_ptr(st, p, v)
    return v


def total(its):
    n = usz(0)
    for g, _ in its:
        n = add(n, ite(g, usz(1), usz(0)))
    return n


def picked(its, chosen):
    """(whether one is chosen, its value) for exclusive conditions."""
    hit, v = FALSE, None
    for (g, x), c in list(zip(its, chosen))[::-1]:
        c = land(g, c)
        if c is FALSE:
            continue
        v = x if v is None else merge(c, x, v)
        hit = lor(hit, c)
    return hit, v


def ends_of(its):
    """Conditions of being the first and the last present item."""
    first, last, seen = [], [None] * len(its), FALSE
    for g, _ in its:
        first.append(land(g, lnot(seen)))
        seen = lor(seen, g)
    seen = FALSE
    for i in range(len(its) - 1, -1, -1):
        last[i] = land(its[i][0], lnot(seen))
        seen = lor(seen, its[i][0])
    return first, last


@pat(r'(?:vec::Vec|collections::VecDeque)::<T, A>::(retain|retain_mut)$')
def m_vec_retain(I, inst, args, st, atys, sp, op):
    its = listed(I, st, args[0])
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    out = []
    for g, x in its:
        q = tmp(I, st, x)
        c = conditional(I, st, g, lambda s: I.scalar(callf(I, s, f, fty, [q])))
        if c is not None:
            out.append((land(g, c), I.read_ptr(st, q)))
    relist(I, st, args[0], out)
    return UNIT


@pat(r'vec::Vec::<T, A>::(dedup_by|dedup_by_key)$')
def m_dedup_by(I, inst, args, st, atys, sp, op):
    its = listed(I, st, args[0])
    f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    out, prev = [], None
    for g, x in its:
        same_ = FALSE
        if prev is not None:
            hit, y = prev
            if op == 'dedup_by':
                same_ = I.scalar(callf(I, st, f, fty, [tmp(I, st, x), tmp(I, st, y)]))
            else:
                a, b = (callf(I, st, f, fty, [tmp(I, st, z)]) for z in (x, y))
                same_ = veq_untyped(I, st, a, b)
            same_ = land(hit, same_)
        keep = land(g, lnot(same_))
        out.append((keep, x))
        prev = (keep, x) if prev is None else (lor(prev[0], keep), merge(keep, x, prev[1]))
    relist(I, st, args[0], out)
    return UNIT


@pat(r'(?:vec::Vec|collections::VecDeque)::<T, A>::(resize|resize_with)$')
def m_vec_resize(I, inst, args, st, atys, sp, op):
    its, n = listed(I, st, args[0]), args[1]
    have = total(its)
    top = most(I, st, n, 300)
    out = [(land(g, lt(r, n)), x) for g, r, x in ranked(its)]
    more = []
    for k in range(top):
        g = land(lt(usz(k), n), lnot(lt(usz(k), have)))
        if g is FALSE:
            continue
        x = args[2] if op == 'resize' else conditional(I, st, g, lambda s: callf(I, s, hold(I, s, args[2]), aty(I, inst, atys, 2), []))
        more.append((g, x))
    relist(I, st, args[0], out + more)
    return UNIT


@pat(r'(?:vec::Vec|collections::VecDeque)::<T, A>::append$')
def m_vec_append(I, inst, args, st, atys, sp):
    a, b = listed(I, st, args[0]), listed(I, st, args[1])
    relist(I, st, args[0], list(a) + list(b))
    relist(I, st, args[1], [])
    return UNIT


@pat(r'vec::Vec::<T, A>::extend_from_within$')
def m_extend_within(I, inst, args, st, atys, sp):
    its = listed(I, st, args[0])
    n = total(its)
    a, b = M.range_bounds(I, args[1], aty(I, inst, atys, 1), n)
    bounds_event(I, inst, st, sp, land(lnot(lt(b, a)), lnot(lt(n, b))), 'extend_from_within range')
    relist(I, st, args[0], list(its) + [(land(g, lnot(lt(r, a)), lt(r, b)), x) for g, r, x in ranked(its)])
    return UNIT


@pat(r'(?:vec::Vec|collections::VecDeque)::<T, A>::(drain|split_off)$')
def m_vec_drain(I, inst, args, st, atys, sp, op):
    its = listed(I, st, args[0])
    n = total(its)
    if op == 'drain':
        a, b = M.range_bounds(I, args[1], aty(I, inst, atys, 1), n)
    else:
        a, b = args[1], n
    bounds_event(I, inst, st, sp, land(lnot(lt(b, a)), lnot(lt(n, b))), '%s range' % op)
    inn = [(land(g, lnot(lt(r, a)), lt(r, b)), x) for g, r, x in ranked(its)]
    out = [(land(g, lor(lt(r, a), lnot(lt(r, b)))), x) for g, r, x in ranked(its)]
    relist(I, st, args[0], out)
    if op == 'split_off':
        return relist(I, st, None, inn)
    return Iter(ListSeq([x for x in inn if x[0] is not FALSE]))


@pat(r'collections::VecDeque::<.*>::(new|with_capacity)$')
def m_deque_new(I, inst, args, st, atys, sp, op):
    return Vec(Arr(()))


@pat(r'collections::VecDeque::<T, A>::(push_front|pop_front|pop_back|front|back|front_mut|back_mut|clear|is_empty|make_contiguous|get|truncate|remove|'
     r'rotate_left|rotate_right|iter|iter_mut|contains|as_slices)$')
def m_deque(I, inst, args, st, atys, sp, op):
    p = args[0]
    if op in ('clear', 'truncate', 'remove'):
        if op == 'remove':
            its = listed(I, st, p)
            hit, v = picked(its, [eq(r, args[1]) for g, r, x in ranked(its)])
            relist(I, st, p, [(land(g, lnot(eq(r, args[1]))), x) for g, r, x in ranked(its)])
            return opt(hit, v, ret_ty(inst)) if v is not None else none(ret_ty(inst))
        return edit(I, st, p, op, args, inst, sp)
    its = listed(I, st, p)
    if op == 'push_front':
        relist(I, st, p, [(TRUE, args[1])] + list(its))
        return UNIT
    if op == 'is_empty':
        return eq(total(its), usz(0))
    first, last = ends_of(its)
    if op in ('pop_front', 'pop_back', 'front', 'back'):
        hit, v = picked(its, first if op.endswith('front') else last)
        if op.startswith('pop'):
            which = first if op == 'pop_front' else last
            relist(I, st, p, [(land(g, lnot(c)), x) for (g, x), c in zip(its, which)])
            return opt(hit, v, ret_ty(inst)) if v is not None else none(ret_ty(inst))
        return opt(hit, tmp(I, st, v), ret_ty(inst)) if v is not None else none(ret_ty(inst))
    if op in ('front_mut', 'back_mut', 'get', 'iter_mut', 'make_contiguous', 'iter') and all(g is TRUE for g, _ in its):
        relist(I, st, p, its)
        cell = lambda i: Ptr(p.alloc, p.path + (('c',), ('i', i)))
        n = len(its)
        if op == 'make_contiguous':
            return M.as_slice(I, st, p)
        if op in ('iter', 'iter_mut'):
            return Iter(ListSeq([(TRUE, cell(usz(i))) for i in range(n)]))
        if op == 'get':
            return opt(lt(args[1], usz(n)), cell(args[1]), ret_ty(inst)) if n else none(ret_ty(inst))
        return some(cell(usz(0 if op == 'front_mut' else n - 1)), ret_ty(inst)) if n else none(ret_ty(inst))
    if op == 'iter':
        return Iter(ListSeq([(g, tmp(I, st, x)) for g, x in its]))
    if op == 'contains':
        x = I.read_ptr(st, args[1])
        return lor(FALSE, *[land(g, veq_untyped(I, st, y, x)) for g, y in its])
    if op.startswith('rotate') and all(g is TRUE for g, _ in its) and args[1].is_const:
        xs, k = list(its), args[1].data
        bounds_event(I, inst, st, sp, boolc(k <= len(xs)), 'rotate out of bounds')
        k = k if op == 'rotate_left' else len(xs) - k
        relist(I, st, p, xs[k:] + xs[:k])
        return UNIT
    raise Unsupported('VecDeque::' + op)


@pat(r'<collections::VecDeque<T, A> as ops::(Index|IndexMut)<usize>>::index(?:_mut)?$')
def m_deque_index(I, inst, args, st, atys, sp, op):
    its = listed(I, st, args[0])
    if not all(g is TRUE for g, _ in its):
        raise Unsupported('indexing a list of varying length')
    relist(I, st, args[0], its)
    bounds_event(I, inst, st, sp, lt(args[1], usz(len(its))), 'index out of bounds')
    return Ptr(args[0].alloc, args[0].path + (('c',), ('i', args[1])))


def edit(I, st, p, op, args, inst, sp):
    """pop, truncate, remove, swap_remove, insert and clear of lists whose length varies."""
    if op == 'clear':
        I.write_ptr(st, p, Vec(Arr(())))
        return UNIT
    its = listed(I, st, p)
    n = total(its)
    rk = ranked(its)
    if op == 'pop':
        _, last = ends_of(its)
        hit, v = picked(its, last)
        relist(I, st, p, [(land(g, lnot(c)), x) for (g, x), c in zip(its, last)])
        return opt(hit, v, ret_ty(inst)) if v is not None else none(ret_ty(inst))
    k = args[1]
    if op == 'truncate':
        relist(I, st, p, [(land(g, lt(r, k)), x) for g, r, x in rk])
        return UNIT
    if op == 'insert':
        bounds_event(I, inst, st, sp, lnot(lt(n, k)), 'Vec::insert out of bounds')
        out = []
        for g, r, x in rk:
            out.append((land(g, eq(r, k)), args[2]))
            out.append((g, x))
        relist(I, st, p, out + [(eq(n, k), args[2])])
        return UNIT
    bounds_event(I, inst, st, sp, lt(k, n), 'Vec::%s out of bounds' % op)
    hit, v = picked(its, [eq(r, k) for g, r, x in rk])
    if v is None:
        from interp import Diverged
        raise Diverged(op)
    if op == 'remove':
        relist(I, st, p, [(land(g, lnot(eq(r, k))), x) for g, r, x in rk])
        return v
    if op == 'swap_remove':
        _, last = ends_of(its)
        _, z = picked(its, last)
        relist(I, st, p, [(land(g, lnot(c)), merge(eq(r, k), z, x)) for (g, r, x), c in zip(rk, last)])
        return v
    raise Unsupported('list ' + op)


M.list_edit = edit
