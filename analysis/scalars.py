"""Transfer functions for numbers, characters, cells and shared pointers that models.py leaves out."""
import json
import os
import re
from terms import *
from values import *
from seqs import *
import models as M
from models import CRATES, norm_path, reg, pat, trait, aty, ret_ty, some, none, opt, callf, hold, tmp, is_var, variant, chrterm, sconst, str_of, most, \
    bounds_event, WORDS, map_char
from texts import chars_of, byte_terms

U32 = ('u', 32)

# ------------------------------------------------------------------ Unicode
UNI = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'unicode.json')))
_CLASS = {}


def uni_class(name):
    t = _CLASS.get(name)
    if t is None:
        t = np.zeros(0x110000, dtype=bool)
        for a, b in UNI[name]:
            t[a:b] = True
        _CLASS[name] = t
    return t


def between(*rs):
    def f(a):
        r = np.zeros(np.shape(a), dtype=bool)
        for x, y in rs:
            r |= (a >= ord(x)) & (a <= ord(y))
        return r
    return f


def in_class(*names):
    def f(a):
        r = np.zeros(np.shape(a), dtype=bool)
        for n in names:
            r |= uni_class(n)[np.asarray(a, dtype=np.int64)]
        return r
    return f


PUNCT = (('!', '/'), (':', '@'), ('[', '`'), ('{', '~'))
PREDICATES = {
    'is_ascii': lambda a: a < 128,
    'is_ascii_digit': between('09'), 'is_ascii_lowercase': between('az'), 'is_ascii_uppercase': between('AZ'),
    'is_ascii_alphabetic': between('az', 'AZ'), 'is_ascii_alphanumeric': between('az', 'AZ', '09'),
    'is_ascii_hexdigit': between('09', 'af', 'AF'), 'is_ascii_punctuation': between(*PUNCT), 'is_ascii_graphic': between('!~'),
    'is_ascii_whitespace': lambda a: np.isin(a, [9, 10, 12, 13, 32]),
    'is_ascii_control': lambda a: (a < 32) | (a == 127), 'is_ascii_octdigit': between('07'),
    'is_alphabetic': in_class('alphabetic'), 'is_numeric': in_class('numeric'), 'is_alphanumeric': in_class('alphabetic', 'numeric'),
    'is_lowercase': in_class('lowercase'), 'is_uppercase': in_class('uppercase'), 'is_control': in_class('control'),
    'is_whitespace': in_class('whitespace'),
}
M.PREDICATES = PREDICATES


def digit_values(a, radix):
    a = np.asarray(a, dtype=np.int64)
    v = np.where((a >= 48) & (a <= 57), a - 48,
                 np.where((a >= 65) & (a <= 90), a - 55, np.where((a >= 97) & (a <= 122), a - 87, 99)))
    return np.where(v < radix, v, -1)


def digit_of(c, radix):
    """(is a digit, its value) of a character."""
    return (map_char(c, lambda a: digit_values(a, radix) >= 0, 'bool'),
            map_char(c, lambda a: np.maximum(digit_values(a, radix), 0), U32))


def char_op(I, inst, args, st, c, op, sp):
    if op in ('to_digit', 'is_digit'):
        r = args[1]
        if not r.is_const or not 2 <= r.data <= 36:
            raise Unsupported('char ' + op)
        ok, v = digit_of(c, r.data)
        return ok if op == 'is_digit' else opt(ok, v, ret_ty(inst))
    if op == 'from_digit':
        n, r = args
        bounds_event(I, inst, st, sp, lt(r, const(37, U32)), 'from_digit: radix is too high')
        ch = ite(lt(n, const(10, U32)), add(n, const(48, U32)), add(n, const(87, U32)))
        ok = lt(n, r)
        # outside the radix there is no character: keep the value one that exists
        return opt(ok, cast(ite(ok, ch, const(48, U32)), 'char'), ret_ty(inst))
    if op == 'from_u32':
        return M.m_from_u32(I, inst, args, st, None, sp)
    if op == 'from_u32_unchecked':
        return cast(args[0], 'char')
    if op == 'encode_utf8':
        p = args[1]
        if isinstance(p, Ptr) and p.meta is not None:
            bounds_event(I, inst, st, sp, lnot(lt(p.meta[1], mk('utf8len', USIZE, c))), 'encode_utf8: the buffer is too small')
            n = most(I, st, p.meta[1])
            for i in range(min(n, 4)):
                I.write_ptr(st, Ptr(p.alloc, p.path + (('i', add(p.meta[0], usz(i))),)), POISON)
        return StrRef(chrterm(c))
    raise Unsupported('char ' + op)


M.char_op = char_op


# ------------------------------------------------------------------ numbers
def number_op(I, inst, args, st, op, sp):
    """Operations whose library bodies use intrinsics."""
    a = args[0]
    if op in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        s = I.sort_of(ret_ty(inst))
        bs = M.as_arr(a)
        if not isinstance(bs, Arr) or s is None:
            raise Unsupported('number ' + op)
        r = const(0, s)
        for k, b in enumerate(bs.items if op != 'from_be_bytes' else bs.items[::-1]):
            r = mk_ac('or', s, (r, mk('shl', s, cast(b, s), const(8 * k, U32))))
        return r
    if op == 'from_str_radix':
        return parse_int(I, st, str_of(I, st, args[0]), args[1], ret_ty(inst))
    if not isinstance(a, Term) or not isinstance(a.sort, tuple):
        return None
    s = a.sort
    w = s[1]
    us = ('u', w)
    x = cast(a, us)
    shl = lambda t, n: mk('shl', us, t, const(n, U32))
    shr = lambda t, n: mk('shr', us, t, const(n, U32))
    orr = lambda p, q: mk_ac('or', us, (p, q))
    if op in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        bs = [cast(shr(x, 8 * k) if k else x, ('u', 8)) for k in range(w // 8)]
        return Arr(bs[::-1] if op == 'to_be_bytes' else bs)
    if op in ('rotate_left', 'rotate_right'):
        n = mk_ac('and', U32, (args[1], const(w - 1, U32)))
        m = mk_ac('and', U32, (sub(const(w, U32), n), const(w - 1, U32)))
        if op == 'rotate_right':
            n, m = m, n
        return cast(orr(mk('shl', us, x, n), mk('shr', us, x, m)), s)
    if op in ('swap_bytes', 'to_be', 'from_be'):
        r = const(0, us)
        for k in range(w // 8):
            b = mk_ac('and', us, (shr(x, 8 * k), const(255, us)))
            r = orr(r, shl(b, w - 8 - 8 * k))
        return cast(r, s)
    if op in ('to_le', 'from_le'):
        return a
    if op == 'reverse_bits':
        n = 1
        while n < w:
            mask = sum(((1 << n) - 1) << k for k in range(0, w, 2 * n))
            lo = mk_ac('and', us, (x, const(mask, us)))
            hi = mk_ac('and', us, (shr(x, n), const(mask, us)))
            x = orr(shl(lo, n), hi)
            n *= 2
        return cast(x, s)
    if op in ('wrapping_pow', 'pow', 'checked_pow', 'saturating_pow', 'overflowing_pow'):
        n = args[1]
        top = most(I, st, n, 130)
        r, over, out = const(1, s), FALSE, const(1, s)
        for k in range(top):
            use = lt(const(k, n.sort), n)
            bad = mk('ovf_mul', 'bool', r, a)
            over = lor(over, land(use, bad))
            r = mk_ac('mul', s, (r, a))
            out = ite(use, r, out)
        if op == 'pow':
            bad = land(st.path, over)
            if not I.surely_false(bad):
                I.event(bad, 'overflow Mul', I.stack[-1] if I.stack else '', sp)
            return out
        if op == 'checked_pow':
            return opt(lnot(over), out, ret_ty(inst))
        if op == 'overflowing_pow':
            return Agg([out, over])
        if op == 'saturating_pow' and s[0] == 'u':
            return ite(over, const((1 << w) - 1, s), out)
        if op == 'wrapping_pow':
            return out
    if op == 'isolate_lowest_one' or op == 'isolate_least_significant_one':
        return mk_ac('and', s, (a, mk('neg', s, a)))
    if op in ('leading_ones',):
        return mk('clz', U32, mk('not', s, a))
    return None


M.number_op = number_op


@reg('intrinsics::saturating_sub', 'intrinsics::saturating_add')
def m_saturating(I, inst, args, st, atys, sp):
    return M.m_num(I, inst, args, st, atys, sp, '', inst['np'].split('::')[-1])


ERR_KINDS = {'empty': 0, 'invalid': 1, 'pos': 2, 'neg': 3}


def int_result(I, rt, ok, value, kind):
    """Result<integer, ParseIntError>"""
    T = I.P.types[rt]
    ety = T['args'][1]
    e = Agg([Enum(kind, {k: () for k in range(6)}, None)], ety)
    if ok is TRUE:
        return variant(0, [value], rt)
    if ok is FALSE:
        return variant(1, [e], rt)
    return Enum(ite(ok, const(0, VIDX), const(1, VIDX)), {0: (value,), 1: (e,)}, rt)


def parse_text(s, radix, sort):
    signed, w = sort[0] == 'i', sort[1]
    if not s:
        return None, 'empty'
    d, neg = s, False
    if s[0] == '+' or (s[0] == '-' and signed):
        neg, d = s[0] == '-', s[1:]
        if not d:
            return None, 'invalid'
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    v = 0
    for ch in d:
        k = int(digit_values(np.array([ord(ch)]), radix)[0])
        if k < 0:
            return None, 'invalid'
        v = v * radix + (-k if neg else k)
        if v < lo:
            return None, 'neg'
        if v > hi:
            return None, 'pos'
    return v, None


def parse_int(I, st, t, radix, rt):
    sort = I.sort_of(I.P.types[rt]['args'][0])
    if not radix.is_const or sort is None:
        raise Unsupported('parsing a number of unknown radix')
    radix = radix.data
    if t.is_const or t.op == 'tab':
        dims, arr = ((), np.array(t.data, dtype=object)) if t.is_const else t.data
        flat = [parse_text(x, radix, sort) for x in arr.flat]
        def back(xs, s):
            return const(xs[0], s) if t.is_const else tab(list(dims), np.array(xs).reshape(arr.shape), s)
        return int_result(I, rt, back([v is not None for v, _ in flat], 'bool'), back([v or 0 for v, _ in flat], sort),
                          back([ERR_KINDS.get(k, 1) for _, k in flat], VIDX))
    if t.op == 'ite':
        return merge(t.args[0], parse_int(I, st, t.args[1], const(radix, U32), rt), parse_int(I, st, t.args[2], const(radix, U32), rt))
    cs = chars_of(I, t)
    if not cs:
        return int_result(I, rt, FALSE, const(0, sort), const(0, VIDX))
    wide = ('i', 64) if sort[0] == 'i' else ('u', 64)
    if sort[1] > 32 and len(cs) > 15 or len(cs) * np.log2(radix) > 60:
        raise Unsupported('parsing a long number')
    plus, minus = eq(cs[0], const(43, 'char')), eq(cs[0], const(45, 'char'))
    if sort[0] == 'u':
        minus = FALSE
    sign = lor(plus, minus)
    val, good = const(0, wide), TRUE
    over = FALSE
    hi = (1 << (sort[1] - 1)) - 1 if sort[0] == 'i' else (1 << sort[1]) - 1
    lo = hi + 1 if sort[0] == 'i' else 0
    kind = const(1, VIDX)
    done = FALSE                    # an error was met
    for i, c in enumerate(cs):
        ok, d = digit_of(c, radix)
        here = TRUE if i else lnot(sign)
        nv = add(mk_ac('mul', wide, (val, const(radix, wide))), cast(d, wide))
        big = FALSE
        if radix ** (i + 1) > hi:
            big = lor(land(lnot(minus), lt(const(hi, wide), nv)), land(minus, lt(const(lo, wide), nv)))
        bad = land(here, lor(lnot(ok), big))
        kind = ite(land(lnot(done), here, ok, big), ite(minus, const(3, VIDX), const(2, VIDX)), kind)
        done = lor(done, bad)
        val = ite(here, ite(done, val, nv), val)
    if len(cs) == 1:
        done = lor(done, sign)
    v = ite(minus, mk('neg', wide, val), val) if sort[0] == 'i' else val
    return int_result(I, rt, lnot(done), cast(v, sort), kind)


@pat(r'num::(?:\w+::)*<impl str::FromStr for (' + WORDS + r')>::from_str$')
def m_int_from_str(I, inst, args, st, atys, sp, ty):
    return parse_int(I, st, str_of(I, st, args[0]), const(10, U32), ret_ty(inst))


@pat(r'num::(?:\w+::)*NonZero::<.*>::(new|get|new_unchecked)$')
def m_nonzero(I, inst, args, st, atys, sp, op):
    a = args[0]
    if op == 'new':
        return opt(lnot(eq(a, const(0, a.sort))), a, ret_ty(inst))
    while isinstance(a, Agg) and len(a.fields) == 1:
        a = a.fields[0]
    return I.scalar(a)


# ------------------------------------------------------------------ cells and shared pointers
@reg('cell::UnsafeCell::<T>::get', 'cell::UnsafeCell::<T>::get_mut', 'cell::UnsafeCell::<T>::raw_get')
def m_cell_get(I, inst, args, st, atys, sp):
    def one(p):
        if isinstance(p, Union):
            return Union([(g, one(x)) for g, x in p.alts])
        return Ptr(p.alloc, p.path + (('f', 0),))
    return one(args[0])


@pat(r'cell::Cell::<T>::(get|set|replace|take|update|into_inner)$')
def m_cell(I, inst, args, st, atys, sp, op):
    if op == 'into_inner':
        v = args[0]
        for _ in range(2):
            if not isinstance(v, Agg) or len(v.fields) != 1:
                raise Unsupported('cell %r' % (v,))
            v = v.fields[0]
        return v
    p = args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('joined cell')
    p = Ptr(p.alloc, p.path + (('f', 0), ('f', 0)))
    old = I.read_ptr(st, p)
    if op == 'get':
        return old
    if op == 'update':
        old = callf(I, st, args[1], aty(I, inst, atys, 1), [old])
        I.write_ptr(st, p, old)
        return old if I.P.types[ret_ty(inst)]['k'] != 'tuple' else UNIT
    if op == 'take':
        d = I.P.find_trait('default::Default::default', ret_ty(inst))
        s = I.sort_of(ret_ty(inst))
        new = const(0, s) if s is not None else I.call(d, [], st) if d is not None else None
        if new is None:
            raise Unsupported('Cell::take')
    else:
        new = args[1]
    I.write_ptr(st, p, new)
    return UNIT if op == 'set' else old


CELL = re.compile(r'^(cell::|sync::atomic::|sync::(?:\w+::)*(?:Mutex|RwLock|Once|OnceLock|LazyLock|Condvar)$)')


def frozen(I, t, seen):
    """The type holds nothing that changes behind a shared reference."""
    if t in seen:
        return True
    seen.add(t)
    T = I.P.types[t]
    k = T['k']
    if k == 'adt':
        if CELL.match(norm_path(T['path'])):
            return False
        inside = [f['ty'] for v in T['variants'] for f in v['fields']] if T['crate'] in CRATES else []
        return all(frozen(I, a, seen) for a in inside + [a for a in T.get('args') or [] if isinstance(a, int)])
    if k in ('ref', 'ptr', 'array', 'slice'):
        return frozen(I, T['ty'], seen)
    if k == 'tuple':
        return all(frozen(I, z, seen) for z in T['tys'])
    return k in ('int', 'uint', 'bool', 'char', 'str', 'float', 'prim', 'never')


@pat(r'(?:rc::Rc|sync::Arc)::<.*>::new$')
def m_rc_new(I, inst, args, st, atys, sp):
    ty = aty(I, inst, atys, 0)
    if ty is not None and frozen(I, ty, set()):
        return Agg([args[0]], 'box')        # sharing what never changes is having it
    return Ptr(I.new_alloc(st, args[0]))


@pat(r'<(?:rc::Rc|sync::Arc)<.*> as (clone::Clone>::clone|ops::Deref>::deref|convert::AsRef<T>>::as_ref|borrow::Borrow<T>>::borrow)$')
def m_rc_ref(I, inst, args, st, atys, sp, op):
    v = I.read_ptr(st, args[0])
    if isinstance(v, (Ptr, DynPtr, StrRef)):
        return v
    if isinstance(v, Agg) and v.ty == 'box':
        return v if op.startswith('clone') else Ptr(args[0].alloc, args[0].path + (('c',),))
    raise Unsupported('shared pointer %r' % (v,))


@pat(r'<(?:rc::Rc|sync::Arc)<.*> as cmp::PartialEq(?:<.*>)?>::(eq|ne)$')
def m_rc_eq(I, inst, args, st, atys, sp, op):
    import models
    a, b = (I.read_ptr(st, x) for x in args[:2])
    if not all(isinstance(x, Agg) and x.ty == 'box' for x in (a, b)):
        raise Unsupported('comparison of shared pointers')
    t = I.P.types[I.P.types[aty(I, inst, atys, 0)]['ty']]
    f = I.P.find_trait('cmp::PartialEq::eq', t['args'][0])
    if f is not None and I.P.insts[f]['body'] is not None:
        r = I.scalar(I.call(f, [Ptr(x.alloc, x.path + (('c',),)) for x in args[:2]], st))
    else:
        r = models.veq_untyped(I, st, a.fields[0], b.fields[0])
    return r if op == 'eq' else lnot(r)


@pat(r'(?:rc::Rc|sync::Arc)::<.*>::ptr_eq$')
def m_rc_same(I, inst, args, st, atys, sp):
    a, b = (I.read_ptr(st, x) for x in args)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and not a.path and not b.path:
        return TRUE if a.alloc == b.alloc else FALSE
    raise Unsupported('ptr_eq')


# ------------------------------------------------------------------ calls through boxes
@pat(r'<boxed::Box<F, A> as ops::(?:Fn|FnMut|FnOnce)<Args>>::call(?:_mut|_once)?$')
def m_box_call(I, inst, args, st, atys, sp):
    f, b = args[0], inst['body']
    t = (atys or b['locals'][1:])[0]
    T = I.P.types[t]
    if T['k'] == 'ref':
        f, t = I.read_ptr(st, f), T['ty']
        T = I.P.types[t]
    if isinstance(f, Agg) and f.ty == 'box':
        f = f.fields[0]
    return I.call_value(f, T['args'][0], list(args[1].fields), st, sp)


# ------------------------------------------------------------------ strings
def repeated(I, st, t, n):
    top = most(I, st, n, 300)
    r = sconst('')
    for k in range(1, top + 1):
        r = ite(lt(n, const(k, n.sort)), r, concat([t] * k))
    return r


@reg('str::<impl str>::repeat')
def m_str_repeat(I, inst, args, st, atys, sp):
    t = str_of(I, st, args[0])
    n = args[1]
    return Str(concat([t] * n.data if n.data else [sconst('')]) if n.is_const else repeated(I, st, t, n))


def cow(I, st, v):
    if isinstance(v, Ptr):
        v = I.read_ptr(st, v)
    if isinstance(v, (Str, StrRef)):
        return v.term
    if isinstance(v, Enum):
        r = None
        for k in sorted(v.vs):
            t = str_of(I, st, v.vs[k][0])
            r = t if r is None else ite(is_var(v, k), t, r)
        return r
    return str_of(I, st, v)


@pat(r"<borrow::Cow<(?:'_|'a|'static), (?:B|str|T)> as (?:ops::Deref>::deref|convert::AsRef<(?:T|B|str)>>::as_ref|borrow::Borrow<.*>>::borrow)$")
def m_cow_ref(I, inst, args, st, atys, sp):
    return StrRef(cow(I, st, args[0]))


@pat(r"borrow::Cow::<(?:'_|'a|'static), (?:B|str|T)>::(into_owned)$")
def m_cow_owned(I, inst, args, st, atys, sp, op):
    return Str(cow(I, st, args[0]))


@pat(r"<borrow::Cow<.*> as convert::From<(.*)>>::from$")
def m_cow_from(I, inst, args, st, atys, sp, src):
    v = args[0]
    if isinstance(v, StrRef):
        return variant(0, [v], ret_ty(inst))
    if isinstance(v, Str):
        return variant(1, [v], ret_ty(inst))
    if isinstance(v, Ptr):
        return variant(0, [StrRef(str_of(I, st, v))], ret_ty(inst))
    raise Unsupported('a borrowed-or-owned value')


@pat(r'option::Option::<T>::as_deref(_mut)?$|result::Result::<T, E>::as_deref(_mut)?$')
def m_as_deref(I, inst, args, st, atys, sp, *muts):
    p = args[0]
    v = I.read_ptr(st, p)
    if not isinstance(v, Enum):
        raise Unsupported('as_deref')
    k = 1 if 'option' in inst['np'] else 0
    vs = {}
    for n, fs in v.vs.items():
        out = []
        for i, x in enumerate(fs):
            q = Ptr(p.alloc, p.path + (('vf', n, i),))
            if n == k:
                if isinstance(x, Str):
                    q = StrRef(x.term)
                elif isinstance(x, Vec):
                    q = M.as_slice(I, st, q)
                elif isinstance(x, Agg) and x.ty == 'box':
                    q = Ptr(q.alloc, q.path + (('c',),))
                elif isinstance(x, (Ptr, StrRef)):
                    q = x
                else:
                    raise Unsupported('as_deref')
            out.append(q)
        vs[n] = tuple(out)
    return Enum(v.disc, vs, ret_ty(inst))
