"""Ordering: comparison of library values by structure, of the crate's values by their own impls."""
from terms import *
from values import *
from seqs import *
import models as M
from models import reg, pat, trait, aty, ret_ty, some, none, opt, is_var, var_field, callf, hold, tmp, CRATES, norm_path, \
    veq_untyped, into_seq, arg_seq, one_ptr, as_slice, content_of, as_arr


def deref_all(I, st, v):
    while isinstance(v, Ptr):
        if v.meta is not None:
            return content_of(I, st, v)
        v = I.read_ptr(st, v)
    if isinstance(v, Vec):
        return I.norm_content(v.content)
    return v


def own_impl(I, ty, partial):
    """The crate's comparison of its own type: (instance, whether it gives an Option)."""
    t = I.P.types[ty]
    if t['k'] != 'adt' or t['crate'] not in CRATES:
        return None
    order = ('cmp::PartialOrd::partial_cmp', 'cmp::Ord::cmp') if partial else ('cmp::Ord::cmp', 'cmp::PartialOrd::partial_cmp')
    for item in order:
        f = I.P.find_trait(item, ty)
        if f is not None:
            return f, item.endswith('partial_cmp')
    raise Unsupported('ordering of %s' % t['name'])


def compare(I, st, a, b, partial=False):
    """The Ordering of two values, by structure; the crate's types by their impls."""
    a, b = deref_all(I, st, a), deref_all(I, st, b)
    if isinstance(a, Union) or isinstance(b, Union):
        raise Unsupported('ordering of joined values')
    if isinstance(a, Term) and isinstance(b, Term):
        return I.ordering(I.less(a, b), eq(a, b))
    if isinstance(a, (Str, StrRef)) and isinstance(b, (Str, StrRef)):
        return I.ordering(str_less(I, a.term, b.term), eq(a.term, b.term))
    ty = a.ty if isinstance(a, (Agg, Enum)) else None
    if isinstance(ty, int):
        t = I.P.types[ty]
        own = own_impl(I, ty, partial)
        if own is not None:
            f, wrapped = own
            r = I.call(f, [tmp(I, st, a), tmp(I, st, b)], st)
            if wrapped:
                if is_var(r, 1) is not TRUE:
                    raise Unsupported('incomparable values')
                r = var_field(r, 1)
            return r
        if t['k'] == 'adt' and norm_path(t['path']) == 'cmp::Reverse':
            return compare(I, st, b.fields[0], a.fields[0], partial)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.ty == 'box':
            return compare(I, st, a.fields[0], b.fields[0], partial)
        return lexicographic(I, st, list(zip(a.fields, b.fields)), 0, partial)
    if isinstance(a, Enum) and isinstance(b, Enum):
        r = I.ordering(lt(a.disc, b.disc), eq(a.disc, b.disc))
        for k in sorted(set(a.vs) & set(b.vs)):
            both = land(is_var(a, k), is_var(b, k))
            if both is FALSE or not a.vs[k]:
                continue
            r = merge(both, lexicographic(I, st, list(zip(a.vs[k], b.vs[k])), 0, partial), r)
        return r
    a, b = as_arr(a), as_arr(b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return lexicographic(I, st, list(zip(a.items, b.items)), len(a.items) - len(b.items), partial)
    raise Unsupported('ordering of %r' % (a,))


def const_ordering(I, d):
    return I.ordering(boolc(d < 0), boolc(d == 0))


def lexicographic(I, st, pairs, tail, partial=False):
    r = const_ordering(I, tail)
    for x, y in reversed(pairs):
        o = compare(I, st, x, y, partial)
        r = merge(is_var(o, 1), r, o)
    return r


def str_less(I, a, b):
    if a.is_const and b.is_const:
        return boolc(a.data < b.data)
    try:
        (x, xt), (y, yt) = M.split_chars(a), M.split_chars(b)
    except Unsupported:
        return mk('lt', 'bool', a, b)
    if xt is not None or yt is not None:
        raise Unsupported('ordering of arbitrary strings')
    r = boolc(len(x) < len(y))
    for c, d in reversed(list(zip(x, y))):
        r = lor(I.less(c, d), land(eq(c, d), r))
    return r


M.vcmp_untyped = compare


def vcmp(I, st, a, b, ty):
    return compare(I, st, a, b)


M.vcmp = vcmp


OPS = {'lt': lambda o: is_var(o, 0), 'le': lambda o: lnot(is_var(o, 2)), 'gt': lambda o: is_var(o, 2), 'ge': lambda o: lnot(is_var(o, 0))}


def structural(I, ty):
    """Whether comparing this type is comparing its structure (and not a crate impl)."""
    t = I.P.types[I.P.peel(ty)]
    if t['k'] in ('tuple', 'array', 'slice', 'str'):
        return True
    if t['k'] == 'adt' and t['crate'] not in CRATES:
        return norm_path(t['path']) in ('option::Option', 'result::Result', 'cmp::Ordering', 'cmp::Reverse', 'vec::Vec', 'boxed::Box',
                                        'string::String', 'collections::VecDeque', 'borrow::Cow')
    return False


@trait('cmp::PartialOrd::lt', 'cmp::PartialOrd::le', 'cmp::PartialOrd::gt', 'cmp::PartialOrd::ge', 'cmp::PartialOrd::partial_cmp', 'cmp::Ord::cmp')
def t_compare(I, inst, args, st, atys, sp):
    op = inst['nt'].split('::')[-1]
    ty = aty(I, inst, atys, 0)
    if not structural(I, ty):
        if inst['body'] is None:
            raise Unsupported('comparison of %s' % I.P.types[ty]['name'])
        return I.call_body(inst, inst['body'], args, st)
    o = compare(I, st, args[0], args[1], op != 'cmp')
    if op == 'cmp':
        return o
    if op == 'partial_cmp':
        return some(o, ret_ty(inst))
    return OPS[op](o)


def list_pair(I, inst, args, st, atys):
    a = arg_seq(I, inst, args, st, atys)
    b = into_seq(I, args[1], aty(I, inst, atys, 1), st)
    xs, ys = a.items(I, st), b.items(I, st)
    if any(g is not TRUE for g, _ in xs) or any(g is not TRUE for g, _ in ys):
        raise Unsupported('comparison of filtered sequences')
    return [x for _, x in xs], [y for _, y in ys]


@trait('iter::Iterator::cmp', 'iter::Iterator::partial_cmp', 'iter::Iterator::lt', 'iter::Iterator::le', 'iter::Iterator::gt', 'iter::Iterator::ge')
def t_iter_cmp(I, inst, args, st, atys, sp):
    op = inst['nt'].split('::')[-1]
    xs, ys = list_pair(I, inst, args, st, atys)
    o = lexicographic(I, st, list(zip(xs, ys)), len(xs) - len(ys), op != 'cmp')
    if op == 'cmp':
        return o
    if op == 'partial_cmp':
        return some(o, ret_ty(inst))
    return OPS[op](o)


@trait('iter::Iterator::ne')
def t_iter_ne(I, inst, args, st, atys, sp):
    return lnot(M.t_iter_eq(I, inst, args, st, atys, sp))


@trait('iter::Iterator::is_sorted', 'iter::Iterator::is_sorted_by', 'iter::Iterator::is_sorted_by_key')
def t_is_sorted(I, inst, args, st, atys, sp):
    return sorted_items(I, st, inst['nt'].split('::')[-1], [v for v in unguarded(arg_seq(I, inst, args, st, atys).items(I, st))],
                        inst, args, atys, byref=False)


def unguarded(its):
    if any(g is not TRUE for g, _ in its):
        raise Unsupported('positions in a filtered sequence')
    return [v for _, v in its]


@pat(r'slice::<impl \[T\]>::(is_sorted\w*)')
def m_is_sorted(I, inst, args, st, atys, sp, op):
    p = one_ptr(as_slice(I, st, args[0]))
    items = [tmp(I, st, x) for x in M.slice_elems(I, st, p)]
    return sorted_items(I, st, op, items, inst, args, atys, byref=True)


def sorted_items(I, st, op, items, inst, args, atys, byref):
    if op != 'is_sorted':
        f, fty = hold(I, st, args[1]), aty(I, inst, atys, 1)
    r = TRUE
    if op == 'is_sorted_by_key':
        items = [callf(I, st, f, fty, [x]) for x in items]
    for x, y in zip(items, items[1:]):
        if op == 'is_sorted_by':
            xs = [x, y] if byref else [tmp(I, st, x), tmp(I, st, y)]
            r = land(r, I.scalar(callf(I, st, f, fty, xs)))
        else:
            r = land(r, lnot(is_var(compare(I, st, x, y, True), 2)))
    return r


@trait('cmp::Ord::max', 'cmp::Ord::min')
def t_ordmax(I, inst, args, st, atys, sp):
    a, b = args
    op = inst['nt'].split('::')[-1]
    if isinstance(a, Term) and isinstance(b, Term):
        return M.prim_cmp(I, inst, st, args, op)
    ty = aty(I, inst, atys, 0)
    if structural(I, ty):
        o = compare(I, st, a, b)
        return merge(is_var(o, 2), a, b) if op == 'max' else merge(is_var(o, 2), b, a)
    if inst['body'] is not None:
        return I.call_body(inst, inst['body'], args, st)
    raise Unsupported('max')


@reg('hint::select_unpredictable', 'bool::<impl bool>::select_unpredictable', 'intrinsics::select_unpredictable')
def m_select(I, inst, args, st, atys, sp):
    return merge(I.scalar(args[0]), args[1], args[2])
