"""Transfer functions for text: strings whose characters are known terms of definite width.

A string of known characters is decided exactly, character by character.  An operation that needs
to know which characters are separators, or how many bytes they take, asks for a definite answer;
callers that quantify over all characters split them into classes (see core.char_classes) over
which the answers are definite.
"""
import numpy as np
import models as M
from terms import *
from values import *
from seqs import *
from models import reg, pat, aty, ret_ty, some, none, callf, str_of, split_chars, map_char, member, ascii_case, \
    WHITE, as_slice, content_of, one_ptr, range_bounds, variant, bounds_event, usz, chrterm, sconst, UNIT
from interp import Diverged

U8 = ('u', 8)


def chars_of(I, t):
    if t.op == 'ite':
        raise not_uniform('characters of a conditional string', t.args[0])
    cs, tail = split_chars(t)
    if tail is not None:
        raise Unsupported('characters of an arbitrary string')
    return cs


def definite(I, st, c):
    """The truth value of a condition, where it is the same for every character in question."""
    if c.is_const:
        return bool(c.data)
    if I.surely_false(land(st.path, c)):
        return False
    if I.surely_false(land(st.path, lnot(c))):
        return True
    raise not_uniform('a text operation over characters that differ', c)


def width(c):
    t = mk('utf8len', USIZE, c)
    if not t.is_const:
        t = force(t, 1 << 21)
    if not t.is_const:
        raise not_uniform('characters of different widths', t)
    return int(t.data)


def text(cs):
    return concat([chrterm(c) for c in cs] or [sconst('')])


def sref(cs):
    return StrRef(text(cs))


def offsets(cs):
    out = [0]
    for c in cs:
        out.append(out[-1] + width(c))
    return out


def byte_terms(cs):
    out = []
    for c in cs:
        n = width(c)
        for i in range(n):
            def f(a, i=i, n=n):
                a = np.asarray(a, dtype=np.int64)
                if n == 1:
                    return a
                if i == 0:
                    return (a >> (6 * (n - 1))) | {2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
                return ((a >> (6 * (n - 1 - i))) & 0x3F) | 0x80
            out.append(map_char(c, f, U8))
    return out


def matcher(I, inst, st, p, pty):
    """f(cs, i) -> (condition, characters matched) for the pattern at position i, or None where it cannot fit."""
    if isinstance(p, Term):
        return lambda cs, i: (eq(cs[i], p), 1) if i < len(cs) else None
    if isinstance(p, Ptr):
        v = I.read_ptr(st, p) if p.meta is None else None
        if isinstance(v, Str):
            p = v
        elif isinstance(v, Term):
            return matcher(I, inst, st, v, None)
        elif isinstance(v, Arr):
            p = v
        elif v is None:
            c = content_of(I, st, p)
            if not isinstance(c, Arr):
                raise Unsupported('pattern %r' % (c,))
            p = c
    if isinstance(p, (Str, StrRef)):
        ks = chars_of(I, p.term)
        if not ks:
            raise Unsupported('an empty pattern')

        def f(cs, i):
            if i + len(ks) > len(cs):
                return None
            return land(*[eq(a, b) for a, b in zip(cs[i:], ks)]), len(ks)
        return f
    if isinstance(p, Arr):
        return lambda cs, i: (lor(FALSE, *[eq(cs[i], k) for k in p.items]), 1) if i < len(cs) else None

    def g(cs, i):
        if i >= len(cs):
            return None
        r = callf(I, st, p, pty, [cs[i]])
        if not isinstance(r, Term):
            raise Unsupported('pattern %r' % (p,))
        return r, 1
    return g


def pattern(I, inst, args, st, atys, k=1):
    return matcher(I, inst, st, args[k], aty(I, inst, atys, k))


def hits(I, st, cs, m, limit=None):
    out, i = [], 0
    while i < len(cs) and (limit is None or len(out) < limit):
        r = m(cs, i)
        if r is not None and definite(I, st, r[0]):
            out.append((i, i + r[1]))
            i += r[1]
        else:
            i += 1
    return out


def back_hits(I, st, cs, m, limit=None):
    out, i = [], len(cs)
    k = 1
    for n in range(1, len(cs) + 1):
        r = m(cs, len(cs) - n)
        if r is not None:
            k = r[1]
            break
    while i > 0 and (limit is None or len(out) < limit):
        if i >= k:
            r = m(cs, i - k)
            if r is not None and definite(I, st, r[0]):
                out.append((i - k, i))
                i -= k
                continue
        i -= 1
    return out


def between(cs, seps):
    out, at = [], 0
    for a, b in seps:
        out.append(cs[at:a])
        at = b
    out.append(cs[at:])
    return out


def lines(I, st, cs):
    nl, cr = const(10, 'char'), const(13, 'char')
    out, cur = [], []
    for c in cs:
        if definite(I, st, eq(c, nl)):
            if cur and definite(I, st, eq(cur[-1], cr)):
                cur = cur[:-1]
            out.append(cur)
            cur = []
        else:
            cur = cur + [c]
    if cur:
        out.append(cur)
    return out


def strs(parts):
    return Iter(ListSeq([(TRUE, sref(p)) for p in parts]))


@pat(r'str::<impl str>::(split|split_terminator|split_inclusive|rsplit|rsplit_terminator|matches|match_indices)$')
def m_split(I, inst, args, st, atys, sp, op):
    cs = chars_of(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys)
    h = hits(I, st, cs, m)
    if op == 'matches':
        return strs([cs[a:b] for a, b in h])
    if op == 'match_indices':
        o = offsets(cs)
        return Iter(ListSeq([(TRUE, Agg([usz(o[a]), sref(cs[a:b])])) for a, b in h]))
    if op == 'split_inclusive':
        parts, at = [], 0
        for a, b in h:
            parts.append(cs[at:b])
            at = b
        if at < len(cs):
            parts.append(cs[at:])
        return strs(parts)
    parts = between(cs, back_hits(I, st, cs, m)[::-1] if op.startswith('r') else h)
    if op.endswith('terminator') and not parts[-1]:
        parts.pop()
    return strs(parts[::-1] if op.startswith('r') else parts)


@pat(r'str::<impl str>::(splitn|rsplitn)$')
def m_splitn(I, inst, args, st, atys, sp, op):
    n = args[1]
    if not n.is_const:
        raise Unsupported(op)
    if n.data == 0:
        return strs([])
    cs = chars_of(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys, 2)
    if op == 'splitn':
        return strs(between(cs, hits(I, st, cs, m, n.data - 1)))
    return strs(between(cs, back_hits(I, st, cs, m, n.data - 1)[::-1])[::-1])


@reg('str::<impl str>::lines')
def m_lines(I, inst, args, st, atys, sp):
    return strs(lines(I, st, chars_of(I, str_of(I, st, args[0]))))


@pat(r'str::<impl str>::(split_once|rsplit_once)$')
def m_split_once(I, inst, args, st, atys, sp, op):
    cs = chars_of(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys)
    h = (hits if op == 'split_once' else back_hits)(I, st, cs, m, 1)
    if not h:
        return none(ret_ty(inst))
    a, b = h[0]
    return some(Agg([sref(cs[:a]), sref(cs[b:])]), ret_ty(inst))


def known_front(I, t):
    """Characters at the front of a string, and whether they are all of it."""
    if t.op == 'ite':
        raise not_uniform('characters of a conditional string', t.args[0])
    cs, tail = split_chars(t)
    return cs, tail


@pat(r'str::<impl str>::(starts_with|ends_with|contains)$')
def m_has(I, inst, args, st, atys, sp, op):
    cs, tail = known_front(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys)
    if op == 'starts_with':
        r = m(cs, 0)
        if r is None:
            if tail is not None:
                raise Unsupported(op)
            return FALSE
        return r[0]
    if tail is not None:
        raise Unsupported(op + ' of an arbitrary string')
    out = FALSE
    for i in range(len(cs)):
        r = m(cs, i)
        if r is not None and (op == 'contains' or i + r[1] == len(cs)):
            out = lor(out, r[0])
    return out


@pat(r'str::<impl str>::(strip_prefix|strip_suffix)$')
def m_strip(I, inst, args, st, atys, sp, op):
    cs, tail = known_front(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys)
    if op == 'strip_prefix':
        r = m(cs, 0)
        if r is None:
            if tail is not None:
                raise Unsupported(op)
            return none(ret_ty(inst))
        v = StrRef(concat([chrterm(c) for c in cs[r[1]:]] + ([tail] if tail is not None else []))) if len(cs) > r[1] or tail is not None else sref([])
        return opt_(r[0], v, ret_ty(inst))
    if tail is not None:
        raise Unsupported(op)
    for i in range(len(cs)):
        r = m(cs, i)
        if r is not None and i + r[1] == len(cs):
            return opt_(r[0], sref(cs[:i]), ret_ty(inst))
    return none(ret_ty(inst))


def opt_(cond, v, ty):
    import models
    return models.opt(cond, v, ty)


@pat(r'str::<impl str>::(trim_matches|trim_start_matches|trim_end_matches|trim_left_matches|trim_right_matches)$')
def m_trim_matches(I, inst, args, st, atys, sp, op):
    t = str_of(I, st, args[0])
    cs = chars_of(I, t)
    m = pattern(I, inst, args, st, atys)
    one = [m(cs, i) for i in range(len(cs))]
    if one and all(r is None or r[1] == 1 for r in one) and any(r is not None and not r[0].is_const for r in one):
        import models
        return StrRef(models.trimmed(cs, [FALSE if r is None else r[0] for r in one], 'end' not in op and 'right' not in op, 'start' not in op and 'left' not in op))
    if 'end' not in op and 'right' not in op:
        while cs:
            r = m(cs, 0)
            if r is None or not definite(I, st, r[0]):
                break
            cs = cs[r[1]:]
    if 'start' not in op and 'left' not in op:
        more = True
        while cs and more:
            more = False
            for i in range(len(cs) - 1, -1, -1):
                r = m(cs, i)
                if r is not None:
                    if i + r[1] == len(cs) and definite(I, st, r[0]):
                        cs = cs[:i]
                        more = True
                    break
    return sref(cs)


@reg('str::<impl str>::trim_ascii')
def m_trim_ascii(I, inst, args, st, atys, sp):
    cs = chars_of(I, str_of(I, st, args[0]))
    ws = [9, 10, 12, 13, 32]
    while cs and definite(I, st, member(cs[0], ws)):
        cs = cs[1:]
    while cs and definite(I, st, member(cs[-1], ws)):
        cs = cs[:-1]
    return sref(cs)


@pat(r'str::<impl str>::(find|rfind)$')
def m_find(I, inst, args, st, atys, sp, op):
    cs = chars_of(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys)
    o = offsets(cs)
    at, any_ = usz(0), FALSE
    order = range(len(cs) - 1, -1, -1) if op == 'find' else range(len(cs))
    for i in order:
        r = m(cs, i)
        if r is not None:
            at = ite(r[0], usz(o[i]), at)
            any_ = lor(any_, r[0])
    return opt_(any_, at, ret_ty(inst))


@pat(r'str::<impl str>::(replace|replacen)$')
def m_replace(I, inst, args, st, atys, sp, op):
    cs = chars_of(I, str_of(I, st, args[0]))
    m = pattern(I, inst, args, st, atys)
    lim = None
    if op == 'replacen':
        if not args[3].is_const:
            raise Unsupported(op)
        lim = args[3].data
    new = str_of(I, st, args[2])
    parts = between(cs, hits(I, st, cs, m, lim))
    out = [text(parts[0])]
    for p in parts[1:]:
        out += [new, text(p)]
    return Str(concat(out))


@reg('str::<impl str>::is_ascii')
def m_is_ascii(I, inst, args, st, atys, sp):
    return land(TRUE, *[map_char(c, lambda a: a < 128, 'bool') for c in chars_of(I, str_of(I, st, args[0]))])


@reg('str::<impl str>::eq_ignore_ascii_case')
def m_eq_nocase(I, inst, args, st, atys, sp):
    a, b = (chars_of(I, str_of(I, st, x)) for x in args[:2])
    if len(a) != len(b):
        return FALSE
    return land(TRUE, *[eq(ascii_case(x, False), ascii_case(y, False)) for x, y in zip(a, b)])


@pat(r'str::<impl str>::(to_lowercase|to_uppercase)$')
def m_case(I, inst, args, st, atys, sp, op):
    f = str.lower if op == 'to_lowercase' else str.upper
    t = str_of(I, st, args[0])
    if t.is_const:
        return Str(sconst(f(t.data)))
    out = []
    for c in chars_of(I, t):
        def g(a):
            r = np.empty(a.shape, dtype=object)
            for i, x in np.ndenumerate(a):
                if int(x) == 0x3A3 and op == 'to_lowercase':
                    raise Unsupported('final sigma')
                r[i] = f(chr(int(x)))
            return r
        if c.is_const:
            out.append(sconst(f(chr(c.data))))
            continue
        c = c if c.op == 'tab' else force(c, 1 << 21)
        arr = c.data[1]
        if arr.size > 70000:
            raise Unsupported('letter case of that many characters')
        s = g(arr)
        if all(len(x) == 1 for x in s.flat):
            out.append(chrterm(tab(list(c.data[0]), np.vectorize(ord, otypes=[np.int64])(s), 'char')))
        else:
            out.append(tab(list(c.data[0]), s, 'str'))
    return Str(concat(out or [sconst('')]))


# ------------------------------------------------------------------ bytes
@reg('str::<impl str>::as_bytes', 'string::String::as_bytes', 'str::<impl convert::AsRef<[u8]> for str>::as_ref',
     '<string::String as convert::AsRef<[u8]>>::as_ref')
def m_as_bytes(I, inst, args, st, atys, sp):
    bs = byte_terms(chars_of(I, str_of(I, st, args[0])))
    return Ptr(I.new_alloc(st, Arr(bs)), (), (usz(0), usz(len(bs))))


@reg('string::String::into_bytes')
def m_into_bytes(I, inst, args, st, atys, sp):
    return Vec(Arr(byte_terms(chars_of(I, str_of(I, st, args[0])))))


@reg('str::<impl str>::bytes')
def m_bytes(I, inst, args, st, atys, sp):
    return Iter(ListSeq([(TRUE, b) for b in byte_terms(chars_of(I, str_of(I, st, args[0])))]))


def decode(I, st, items):
    """Characters of a byte list, or None if it is not UTF-8."""
    if all(b.is_const for b in items):
        try:
            s = bytes(b.data for b in items).decode('utf8')
        except UnicodeDecodeError:
            return None
        return [const(ord(c), 'char') for c in s]
    if not all(definite(I, st, lt(b, const(128, U8))) for b in items):
        raise Unsupported('decoding bytes')
    return [mk('cast', 'char', b) for b in items]


@reg('str::from_utf8', 'str::converts::from_utf8', 'string::String::from_utf8')
def m_from_utf8(I, inst, args, st, atys, sp):
    a = args[0]
    c = a.content if isinstance(a, Vec) else content_of(I, st, one_ptr(as_slice(I, st, a)))
    if not isinstance(c, Arr):
        raise Unsupported('decoding bytes')
    cs = decode(I, st, c.items)
    if cs is None:
        raise Unsupported('decoding malformed bytes')
    return variant(0, [Str(text(cs)) if isinstance(a, Vec) else sref(cs)], ret_ty(inst))


def cut(I, inst, st, cs, at, sp, what='byte index is not on a character boundary'):
    """The character index of a byte offset; a panic elsewhere."""
    o = offsets(cs)
    if not at.is_const:
        raise Unsupported('slicing a string at an unknown place')
    if at.data not in o:
        bounds_event(I, inst, st, sp, FALSE, what)
        raise Diverged(what)
    return o.index(at.data)


@reg('str::traits::<impl ops::Index<I> for str>::index', '<string::String as ops::Index<I>>::index')
def m_str_index(I, inst, args, st, atys, sp):
    rty = aty(I, inst, atys, 1)
    t = str_of(I, st, args[0])
    if 'RangeFull' in I.P.types[rty]['name']:
        return StrRef(t)
    cs, tail = known_front(I, t)
    if tail is not None:
        lo, hi = range_bounds(I, args[1], rty, usz(0)) if 'RangeFrom' in I.P.types[rty]['name'] else (None, None)
        if lo is None:
            lo, hi = range_bounds(I, args[1], rty, usz(0))
            a, b = cut(I, inst, st, cs, lo, sp), cut(I, inst, st, cs, hi, sp)
            return sref(cs[a:b])
        a = cut(I, inst, st, cs, lo, sp)
        return StrRef(concat([chrterm(c) for c in cs[a:]] + [tail]))
    n = usz(offsets(cs)[-1])
    lo, hi = range_bounds(I, args[1], rty, n)
    a, b = cut(I, inst, st, cs, lo, sp), cut(I, inst, st, cs, hi, sp)
    if a > b:
        bounds_event(I, inst, st, sp, FALSE, 'string slice bounds')
        raise Diverged('string slice bounds')
    return sref(cs[a:b])


@reg('str::<impl str>::get')
def m_str_get(I, inst, args, st, atys, sp):
    rty = aty(I, inst, atys, 1)
    cs = chars_of(I, str_of(I, st, args[0]))
    o = offsets(cs)
    lo, hi = range_bounds(I, args[1], rty, usz(o[-1]))
    if not lo.is_const or not hi.is_const:
        raise Unsupported('slicing a string at an unknown place')
    if lo.data not in o or hi.data not in o or lo.data > hi.data:
        return none(ret_ty(inst))
    return some(sref(cs[o.index(lo.data):o.index(hi.data)]), ret_ty(inst))


@pat(r'str::<impl str>::(split_at|split_at_checked)$')
def m_split_at(I, inst, args, st, atys, sp, op):
    cs = chars_of(I, str_of(I, st, args[0]))
    if op == 'split_at_checked':
        if not args[1].is_const:
            raise Unsupported(op)
        o = offsets(cs)
        if args[1].data not in o:
            return none(ret_ty(inst))
        k = o.index(args[1].data)
        return some(Agg([sref(cs[:k]), sref(cs[k:])]), ret_ty(inst))
    k = cut(I, inst, st, cs, args[1], sp)
    return Agg([sref(cs[:k]), sref(cs[k:])])


@reg('str::<impl str>::is_char_boundary')
def m_boundary(I, inst, args, st, atys, sp):
    if not args[1].is_const:
        raise Unsupported('character boundary')
    return TRUE if args[1].data in offsets(chars_of(I, str_of(I, st, args[0]))) else FALSE


@reg("str::Chars::<'a>::as_str")
def m_chars_as_str(I, inst, args, st, atys, sp):
    v = I.read_ptr(st, args[0])
    if isinstance(v, Iter) and isinstance(v.seq, CharSeq):
        s = v.seq
        cs = s.chars[v.i:v.j]
        if v.j is None and s.tail is not None:
            return StrRef(concat([chrterm(c) for c in cs] + [s.tail]))
        return sref(cs)
    raise Unsupported('Chars::as_str')


# ------------------------------------------------------------------ owned strings
@pat(r'string::String::(truncate|insert|insert_str|pop|remove|clear|retain)$')
def m_string_edit(I, inst, args, st, atys, sp, op):
    s = I.read_ptr(st, args[0])
    if op == 'clear':
        I.write_ptr(st, args[0], Str(sconst('')))
        return UNIT
    cs = chars_of(I, str_of(I, st, s))
    r = UNIT
    if op == 'pop':
        if not cs:
            return none(ret_ty(inst))
        r = some(cs[-1], ret_ty(inst))
        cs = cs[:-1]
    elif op == 'retain':
        cs = [c for c in cs if definite(I, st, callf(I, st, args[1], aty(I, inst, atys, 1), [c]))]
    elif op == 'truncate':
        o = offsets(cs)
        if not args[1].is_const:
            raise Unsupported(op)
        if args[1].data < o[-1]:
            cs = cs[:cut(I, inst, st, cs, args[1], sp)]
    else:
        k = cut(I, inst, st, cs, args[1], sp)
        if op == 'remove':
            if k >= len(cs):
                bounds_event(I, inst, st, sp, FALSE, 'cannot remove a char from the end of a string')
                raise Diverged('remove')
            r = cs[k]
            cs = cs[:k] + cs[k + 1:]
        elif op == 'insert':
            cs = cs[:k] + [args[2]] + cs[k:]
        else:
            cs = cs[:k] + chars_of(I, str_of(I, st, args[2])) + cs[k:]
    I.write_ptr(st, args[0], Str(text(cs)))
    return r


@pat(r'str::<impl str>::make_ascii_(lowercase|uppercase)$')
def m_make_ascii(I, inst, args, st, atys, sp, op):
    raise Unsupported('changing letter case in place')


@reg("fmt::Formatter::<'a>::debug_c_like_enum_write_str")
def m_c_like(I, inst, args, st, atys, sp):
    """A derived Debug of an enum without fields: the word of `names` that starts at an offset."""
    names = str_of(I, st, args[1])
    if not names.is_const:
        raise Unsupported('names of an enum')
    words, at = [], 0
    for w in names.data.split(' '):
        words.append((at, w))
        at += len(w.encode()) + 1
    i = args[2]
    bounds_event(I, inst, st, sp, lor(FALSE, *[eq(i, usz(a)) for a, _ in words]), 'name of an enum')
    r = sconst(words[-1][1])
    for a, w in words[-2::-1]:
        r = ite(eq(i, usz(a)), sconst(w), r)
    M.emit(I, st, args[0], r)
    return M.RESULT_OK
