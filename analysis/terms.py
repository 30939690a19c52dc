"""Hash-consed terms over finite abstract dimensions.

A scalar abstract value is a term.  `Tab` leaves are exact finite functions of one or more
dimensions (a dimension is a named finite domain: the 52 cards, the 13 ranks, all Unicode scalar
values, the iterations of a loop, ...).  Operators fold to a new table when the joint domain of
their operands is small and stay symbolic otherwise.  Nothing here runs code of the crate.
"""
import numpy as np

SINGLE_LIMIT = 1 << 21     # largest one-dimensional table built eagerly
JOINT_LIMIT = 1 << 17      # largest multi-dimensional table built eagerly
STR_LIMIT = 1 << 13        # largest table of strings built eagerly


class Unsupported(Exception):
    """A construct outside the abstract domain: the obligation is undecided."""
    split = None    # a term the operation would have to be uniform in


def not_uniform(what, t):
    e = Unsupported(what)
    e.split = t
    return e


class Dim:
    __slots__ = ('id', 'name', 'size', 'label', 'kind')
    n = 0

    def __init__(self, name, size, label=None, kind=None):
        Dim.n += 1
        self.id = Dim.n
        self.name = name
        self.size = size
        self.label = label
        self.kind = kind

    def __repr__(self):
        return '%s#%d/%d' % (self.name, self.id, self.size)

    def __lt__(self, o):
        return self.id < o.id


# ---- sorts: 'bool', 'char', 'str', ('i',bits), ('u',bits)
USIZE = ('u', 64)
ISIZE = ('i', 64)
I32 = ('i', 32)


def dtype(sort):
    if sort == 'bool':
        return np.bool_
    if sort == 'char':
        return np.int64
    if sort == 'str':
        return object
    k, b = sort
    if b > 64:
        return object
    if k == 'u' and b == 64:
        return np.uint64
    return np.int64


def wrap_py(v, sort):
    if sort == 'bool':
        return bool(v)
    if sort in ('char', 'str'):
        return v
    k, b = sort
    v &= (1 << b) - 1
    if k == 'i' and v >> (b - 1):
        v -= 1 << b
    return v


def wrap_np(a, sort):
    if sort == 'bool':
        return a.astype(np.bool_)
    if sort in ('char', 'str'):
        return a
    k, b = sort
    if b > 64:
        return np.vectorize(lambda v: wrap_py(int(v), sort), otypes=[object])(a)
    if b == 64:
        return a.astype(dtype(sort))
    a = a.astype(np.int64)
    m = (1 << b) - 1
    a = a & m
    if k == 'i':
        a = np.where(a >> (b - 1) != 0, a - (1 << b), a)
    return a


class Term:
    __slots__ = ('op', 'sort', 'args', 'data', 'id', 'dims', 'syms', 'node', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    @property
    def is_const(self):
        return self.op == 'const'


_table = {}
_count = [0]


def _intern(op, sort, args, key, data):
    k = (op, sort, tuple(a.id for a in args), key)
    t = _table.get(k)
    if t is not None:
        return t
    t = Term()
    t.op, t.sort, t.args, t.data = op, sort, tuple(args), data
    _count[0] += 1
    t.id = _count[0]
    if op == 'tab':
        t.dims = frozenset(data[0])
        t.syms = frozenset()
    elif op == 'sym':
        t.dims = frozenset()
        t.syms = frozenset([t])
    else:
        d, s = frozenset(), frozenset()
        for a in args:
            if a.dims:
                d = d | a.dims
            if a.syms:
                s = s | a.syms
        t.dims, t.syms = d, s
    _table[k] = t
    return t


def const(v, sort):
    if sort == 'str':
        return _intern('const', sort, (), v, v)
    v = wrap_py(int(v) if sort != 'bool' else bool(v), sort)
    return _intern('const', sort, (), v, v)


TRUE = const(True, 'bool')
FALSE = const(False, 'bool')


def boolc(b):
    return TRUE if b else FALSE


def usz(n):
    return const(n, USIZE)


def sym(name, sort):
    _count[0] += 1
    return _intern('sym', sort, (), (name, _count[0]), name)


def tab(dims, array, sort):
    """An exact function of `dims` (in that axis order)."""
    dims = list(dims)
    if len(dims) > 1:
        order = sorted(range(len(dims)), key=lambda i: dims[i].id)
        array = np.transpose(array, order)
        dims = [dims[i] for i in order]
    array = np.asarray(array, dtype=dtype(sort))
    # drop dimensions the table does not depend on
    keep = []
    ax = 0
    for d in dims:
        if array.shape[ax] == 1 and d.size == 1:
            array = np.take(array, 0, axis=ax)
            continue
        first = np.take(array, [0], axis=ax)
        if array.size and bool(np.all(array == first)):
            array = np.take(array, 0, axis=ax)
        else:
            keep.append(d)
            ax += 1
    if not keep:
        v = array.item() if sort != 'str' else array.reshape(-1)[0] if isinstance(array, np.ndarray) else array
        return const(v, sort)
    array = np.ascontiguousarray(array)
    if array.dtype == object:
        key = (tuple(d.id for d in keep), tuple(array.reshape(-1).tolist()))
    else:
        key = (tuple(d.id for d in keep), hash(array.tobytes()), array.size)
        # guard against (astronomically unlikely) hash collisions
        k = ('tab', sort, (), key)
        o = _table.get(k)
        if o is not None and not np.array_equal(o.data[1], array):
            key = key + (array.tobytes(),)
    return _intern('tab', sort, (), key, (tuple(keep), array))


def dimvar(dim, values=None, sort=USIZE):
    """The term that reads `values[i]` at point i of `dim` (identity by default)."""
    a = np.arange(dim.size) if values is None else np.array(values, dtype=dtype(sort))
    return tab([dim], a, sort)


# ------------------------------------------------------------------ evaluation of operators
def pad_text(s, flags, width, prec, number):
    flags, width, prec = int(flags), int(width) - 1, int(prec) - 1
    fill, align = chr(flags & 0x1FFFFF), flags >> 29 & 3
    sign = ''
    if number:
        if s.startswith('-'):
            sign, s = '-', s[1:]
        elif flags & 1 << 21:
            sign = '+'
        if flags & 1 << 24:
            return sign + '0' * (width - len(s) - len(sign)) + s
        s = sign + s
    elif prec >= 0:
        s = s[:prec]
    n = width - len(s)
    if n <= 0:
        return s
    if align == 3:
        align = 1 if number else 0
    left = (0, n, n // 2)[align]
    return fill * left + s + fill * (n - left)


def radix_text(x, base, upper, alt):
    x, base = int(x), int(base)
    s = {2: '%s' % bin(x)[2:], 8: '%o' % x, 16: '%x' % x}[base]
    return ({2: '0b', 8: '0o', 16: '0x'}[base] if alt else '') + (s.upper() if upper else s)


def _obj(f, *xs):
    return np.frompyfunc(f, len(xs), 1)(*xs)


def _shift_mask(sort):
    return sort[1] - 1


def _np_op(op, sort, args, xs):
    """Apply `op` to numpy arrays xs (broadcastable)."""
    asort = args[0].sort if args else None
    if op == 'and':
        r = xs[0]
        for x in xs[1:]:
            r = r & x
        return r
    if op == 'or':
        r = xs[0]
        for x in xs[1:]:
            r = r | x
        return r
    if op == 'xor':
        r = xs[0]
        for x in xs[1:]:
            r = r ^ x
        return r
    if op == 'not':
        if sort == 'bool':
            return ~np.asarray(xs[0], dtype=np.bool_)
        return wrap_np(~xs[0], sort)
    if op == 'add':
        r = xs[0]
        for x in xs[1:]:
            r = wrap_np(r + x, sort)
        return r
    if op == 'mul':
        r = xs[0]
        for x in xs[1:]:
            r = wrap_np(r * x, sort)
        return r
    if op == 'sub':
        return wrap_np(xs[0] - xs[1], sort)
    if op == 'neg':
        return wrap_np(-xs[0], sort)
    if op in ('div', 'rem'):
        a, b = xs
        safe = np.where(b == 0, 1, b).astype(dtype(sort))
        if sort[0] == 'u' or sort[1] > 64:
            qd = a // safe
        else:
            qd = np.sign(a) * np.sign(safe) * (np.abs(a) // np.abs(safe))
        if op == 'div':
            return wrap_np(qd, sort)
        return wrap_np(a - qd * safe, sort)
    if op == 'shl':
        sh = np.asarray(xs[1]).astype(np.int64) & _shift_mask(sort)
        if dtype(sort) == np.uint64:
            return np.left_shift(np.asarray(xs[0]), sh.astype(np.uint64))
        return wrap_np(np.left_shift(xs[0], sh), sort) if sort[1] < 64 else np.left_shift(xs[0], sh)
    if op == 'shr':
        sh = np.asarray(xs[1]).astype(np.int64) & _shift_mask(sort)
        if dtype(sort) == np.uint64:
            return np.right_shift(np.asarray(xs[0]), sh.astype(np.uint64))
        return np.right_shift(xs[0], sh)
    if op == 'eq':
        r = xs[0] == xs[1]
        return np.asarray(r, dtype=np.bool_)
    if op == 'lt':
        return np.asarray(xs[0] < xs[1], dtype=np.bool_)
    if op == 'ite':
        return np.where(xs[0], xs[1], xs[2])
    if op == 'cast':
        a = np.asarray(xs[0])
        if sort == 'bool':
            return a.astype(np.bool_)
        if asort == 'bool':
            a = a.astype(np.int64)
        if sort == 'char':
            return a.astype(np.int64)
        k, b = sort
        if b > 64:
            return _obj(lambda v: wrap_py(int(v), sort), a)
        if a.dtype == object:
            return _obj(lambda v: wrap_py(int(v), sort), a).astype(dtype(sort))
        if a.dtype == np.uint64 and dtype(sort) == np.int64:
            a = a.astype(np.int64)      # two's complement, wrapped below
        return wrap_np(a, sort)
    if op == 'ovf_add':
        s = asort
        if s[1] >= 64:
            return np.asarray(_obj(lambda a, b: wrap_py(int(a) + int(b), s) != int(a) + int(b), xs[0], xs[1]), dtype=np.bool_)
        r = xs[0] + xs[1]
        return wrap_np(r, s) != r
    if op == 'ovf_sub':
        s = asort
        if s[1] >= 64:
            if s[0] == 'u':
                return np.asarray(xs[0] < xs[1], dtype=np.bool_)
            return np.asarray(_obj(lambda a, b: wrap_py(int(a) - int(b), s) != int(a) - int(b), xs[0], xs[1]), dtype=np.bool_)
        r = xs[0] - xs[1]
        return wrap_np(r, s) != r
    if op == 'ovf_mul':
        s = asort
        if s[1] > 32:
            return np.asarray(_obj(lambda a, b: wrap_py(int(a) * int(b), s) != int(a) * int(b), xs[0], xs[1]), dtype=np.bool_)
        r = xs[0] * xs[1]
        return wrap_np(r, s) != r
    if op == 'ctz':
        b = asort[1]
        a = np.asarray(xs[0])
        r = np.full(a.shape, b, dtype=np.int64)
        for i in range(b - 1, -1, -1):
            bit = np.right_shift(a, np.array(i, dtype=a.dtype)) & np.array(1, dtype=a.dtype)
            r = np.where(bit != 0, i, r)
        return r
    if op == 'clz':
        b = asort[1]
        a = np.asarray(xs[0])
        r = np.full(a.shape, b, dtype=np.int64)
        for i in range(b):
            bit = np.right_shift(a, np.array(i, dtype=a.dtype)) & np.array(1, dtype=a.dtype)
            r = np.where(bit != 0, b - 1 - i, r)
        return r
    if op == 'popcount':
        b = asort[1]
        a = np.asarray(xs[0])
        r = np.zeros(a.shape, dtype=np.int64)
        for i in range(b):
            bit = np.right_shift(a, np.array(i, dtype=a.dtype)) & np.array(1, dtype=a.dtype)
            r = r + (bit != 0)
        return r
    if op == 'chr':
        return _obj(lambda c: chr(int(c)), xs[0])
    if op == 'dispint':
        return _obj(lambda c: str(int(c)), xs[0])
    if op == 'padstr':
        return _obj(pad_text, *xs)
    if op == 'radix':
        return _obj(radix_text, *xs)
    if op == 'strlen':
        return np.asarray(_obj(lambda s: len(s.encode('utf8', 'surrogatepass')), xs[0])).astype(np.uint64)
    if op == 'nchars':
        return np.asarray(_obj(lambda s: len(s), xs[0])).astype(np.uint64)
    if op == 'utf8len':
        c = np.asarray(xs[0])
        return np.where(c < 0x80, 1, np.where(c < 0x800, 2, np.where(c < 0x10000, 3, 4))).astype(np.uint64)
    if op == 'concat':
        r = xs[0]
        for x in xs[1:]:
            r = _obj(lambda a, b: a + b, r, x)
        return r
    if op == 'dbgchr':
        return _obj(lambda c: "'%s'" % chr(int(c)), xs[0])
    raise Unsupported('operator ' + op)


def _as_np(v, sort):
    return np.array(v, dtype=dtype(sort))


class Lut:
    """A finite partial map from integers to scalars (one column of a lookup table)."""
    __slots__ = ('keys', 'vals', 'sort', 'name')

    def __init__(self, keys, vals, sort, name):
        o = np.argsort(keys, kind='stable')
        self.keys = np.asarray(keys)[o]
        self.vals = np.asarray(vals, dtype=dtype(sort))[o]
        self.sort = sort
        self.name = name

    def get(self, k):
        if len(self.keys) == 0:
            return np.zeros(np.shape(k), dtype=dtype(self.sort))
        k = np.asarray(k).astype(np.int64)
        i = np.searchsorted(self.keys, k)
        i = np.minimum(i, len(self.keys) - 1)
        return self.vals[i]

    def has(self, k):
        if len(self.keys) == 0:
            return np.zeros(np.shape(k), dtype=np.bool_)
        k = np.asarray(k).astype(np.int64)
        i = np.minimum(np.searchsorted(self.keys, k), len(self.keys) - 1)
        return self.keys[i] == k


_foldmemo = {}


def _fold(op, sort, args, data=None):
    """Constant/table folding.  Returns a term or None."""
    if data is not None:
        return _fold1(op, sort, args, data)
    k = (op, sort, tuple(a.id for a in args))
    if k in _foldmemo:
        return _foldmemo[k]
    r = _foldmemo[k] = _fold1(op, sort, args)
    return r


def _fold1(op, sort, args, data=None):
    dims = set()
    for a in args:
        if a.syms:
            return None
        dims.update(a.dims)
    if op in COMM and any(a.dims and a.dims != dims for a in args):
        return None          # keep the operands of a commutative operator apart
    size = 1
    for d in dims:
        size *= d.size
    lim = SINGLE_LIMIT if len(dims) <= 1 else JOINT_LIMIT
    if sort == 'str':
        lim = STR_LIMIT
    if size > lim:
        return None
    dl = sorted(dims)
    pos = {d: i for i, d in enumerate(dl)}
    xs = []
    env = None
    for a in args:
        if a.op == 'const':
            xs.append(_as_np(a.data, a.sort) if a.sort != 'str' else _strarr(a.data))
        elif a.op == 'tab':
            ad, arr = a.data
            shape = [1] * len(dl)
            for i, d in enumerate(ad):
                shape[pos[d]] = d.size
            xs.append(arr.reshape(shape))
        else:
            if env is None:
                env = grid([(d, np.arange(d.size)) for d in dl])
            xs.append(evaluate(a, env))
    with np.errstate(all='ignore'):
        r = _apply(op, sort, args, xs, data)
    if not dl:
        if sort == 'str':
            r = r.item() if isinstance(r, np.ndarray) else r
            return const(r, 'str')
        r = r.item() if hasattr(r, 'item') else r
        return const(r, sort)
    full = tuple(d.size for d in dl)
    r = np.broadcast_to(r, full)
    return tab(dl, r, sort)


def _strarr(s):
    a = np.empty((), dtype=object)
    a[()] = s
    return a


def _apply(op, sort, args, xs, data):
    if op == 'lutget':
        return data.get(xs[0])
    if op == 'luthas':
        return data.has(xs[0])
    if op == 'sel':
        idx = xs[0].astype(np.int64)
        r = xs[-1]
        for i in range(len(xs) - 2, 0, -1):
            r = np.where(idx == i - 1, xs[i], r)
        return r
    return _np_op(op, sort, args, xs)


COMM = {'and', 'or', 'xor', 'add', 'mul'}


def identity(op, sort):
    if op == 'and':
        return TRUE if sort == 'bool' else const(-1, sort)
    if op == 'or':
        return FALSE if sort == 'bool' else const(0, sort)
    if op in ('xor', 'add'):
        return FALSE if sort == 'bool' else const(0, sort)
    if op == 'mul':
        return const(1, sort)


_mkmemo = {}


def mk(op, sort, *args, data=None):
    if data is None:
        k = (op, sort, tuple(a.id for a in args))
        r = _mkmemo.get(k)
        if r is None:
            r = _mkmemo[k] = _mk_ac(op, sort, args) if op in COMM else _mk(op, sort, *args)
        return r
    return _mk(op, sort, *args, data=data)


def _mk(op, sort, *args, data=None):
    r = _fold(op, sort, args, data)
    if r is not None:
        return r
    a = args
    if op == 'not':
        x = a[0]
        if x.op == 'not':
            return x.args[0]
        if sort == 'bool' and x.op == 'and':
            return mk_ac('or', 'bool', [mk('not', 'bool', z) for z in x.args])
        if sort == 'bool' and x.op == 'or':
            return mk_ac('and', 'bool', [mk('not', 'bool', z) for z in x.args])
        if sort == 'bool' and x.op == 'ite':
            return ite(x.args[0], mk('not', 'bool', x.args[1]), mk('not', 'bool', x.args[2]))
    elif op == 'eq':
        x, y = a
        if x is y:
            return TRUE
        if x.is_const:
            x, y = y, x
        if x.sort == 'bool':
            if y.is_const:
                return x if y.data else mk('not', 'bool', x)
            return mk('not', 'bool', mk_ac('xor', 'bool', (x, y)))
        if y.is_const:
            if x.op == 'ite' and (x.args[1].is_const or x.args[2].is_const):
                return ite(x.args[0], mk('eq', 'bool', x.args[1], y), mk('eq', 'bool', x.args[2], y))
            if x.op == 'cast' and x.sort != 'char' and x.args[0].sort == 'bool':
                return mk('eq', 'bool', x.args[0], boolc(bool(y.data))) if y.data in (0, 1) else FALSE
            if y.data == 0 and isinstance(x.sort, tuple):
                if x.op == 'or':
                    return mk_ac('and', 'bool', [mk('eq', 'bool', z, y) for z in x.args])
                if x.op == 'and':
                    for i, z in enumerate(x.args):
                        if z.op == 'or':
                            rest = x.args[:i] + x.args[i + 1:]
                            return mk_ac('and', 'bool', [
                                mk('eq', 'bool', mk_ac('and', x.sort, (w,) + rest), y) for w in z.args])
                if x.op == 'xor' and len(x.args) == 2:
                    return mk('eq', 'bool', x.args[0], x.args[1])
            if x.op == 'add' and len(x.args) == 2 and x.args[0].is_const:
                return mk('eq', 'bool', x.args[1], const(y.data - x.args[0].data, x.sort))
        if y < x and not y.is_const:
            x, y = y, x
        a = (x, y)
        if x.op == 'add' and y.op == 'add':
            common = [z for z in x.args if z in y.args]
            if common:
                c = common[0]
                xr = list(x.args)
                xr.remove(c)
                yr = list(y.args)
                yr.remove(c)
                return mk('eq', 'bool', mk_ac('add', x.sort, xr), mk_ac('add', y.sort, yr))
    elif op == 'lt':
        x, y = a
        if x is y:
            return FALSE
        if y.is_const and x.op == 'ite' and (x.args[1].is_const and x.args[2].is_const):
            return ite(x.args[0], mk('lt', 'bool', x.args[1], y), mk('lt', 'bool', x.args[2], y))
        if x.is_const and y.op == 'ite' and (y.args[1].is_const and y.args[2].is_const):
            return ite(y.args[0], mk('lt', 'bool', x, y.args[1]), mk('lt', 'bool', x, y.args[2]))
        if isinstance(x.sort, tuple) and x.sort[0] == 'u' and x.is_const and x.data == 0:
            return mk('not', 'bool', mk('eq', 'bool', y, const(0, y.sort)))
        if isinstance(x.sort, tuple) and x.sort[0] == 'u' and y.is_const and y.data == 0:
            return FALSE
    elif op == 'ite':
        c, x, y = a
        if c.is_const:
            return x if c.data else y
        if x is y:
            return x
        if c.op == 'not':
            return ite(c.args[0], y, x)
        if sort == 'bool':
            if x.is_const:
                return mk_ac('or', 'bool', (c, y)) if x.data else mk_ac('and', 'bool', (mk('not', 'bool', c), y))
            if y.is_const:
                return mk_ac('or', 'bool', (mk('not', 'bool', c), x)) if y.data else mk_ac('and', 'bool', (c, x))
        if x.op == 'ite' and x.args[0] is c:
            return ite(c, x.args[1], y)
        if y.op == 'ite' and y.args[0] is c:
            return ite(c, x, y.args[2])
        if y.op == 'ite' and y.args[1] is x:      # ite(c,x,ite(d,x,z)) = ite(c|d,x,z)
            return ite(mk_ac('or', 'bool', (c, y.args[0])), x, y.args[2])
    elif op == 'cast':
        x = a[0]
        if x.sort == sort:
            return x
        if x.op in ('and', 'or', 'xor') and isinstance(sort, tuple) and isinstance(x.sort, tuple):
            return mk_ac(x.op, sort, [mk('cast', sort, z) for z in x.args])
        if x.op == 'ite' and (x.args[1].is_const or x.args[2].is_const):
            return ite(x.args[0], mk('cast', sort, x.args[1]), mk('cast', sort, x.args[2]))
    elif op in ('shr', 'shl'):
        x, s = a
        if s.is_const:
            if s.data == 0:
                return x
            if x.op in ('and', 'or', 'xor'):
                return mk_ac(x.op, sort, [mk(op, sort, z, s) for z in x.args])
    elif op == 'sub':
        x, y = a
        if x is y:
            return const(0, sort)
        if y.is_const:
            return mk_ac('add', sort, (x, const(-y.data, sort)))
        if x.op == 'add' and y in x.args:
            r = list(x.args)
            r.remove(y)
            return mk_ac('add', sort, r)
    elif op == 'strlen':
        x = a[0]
        if x.op == 'concat':
            return mk_ac('add', USIZE, [mk('strlen', USIZE, z) for z in x.args])
        if x.op == 'chr':
            return mk('utf8len', USIZE, x.args[0])
        if x.op == 'ite':
            return ite(x.args[0], mk('strlen', USIZE, x.args[1]), mk('strlen', USIZE, x.args[2]))
    elif op == 'nchars':
        x = a[0]
        if x.op == 'concat':
            return mk_ac('add', USIZE, [mk('nchars', USIZE, z) for z in x.args])
        if x.op == 'chr':
            return usz(1)
    elif op == 'concat':
        return concat(a)
    elif op == 'sel':
        if a[0].is_const:
            return a[1 + a[0].data]
        if all(x is a[1] for x in a[2:]):
            return a[1]
    key = id(data) if data is not None else None
    return _intern(op, sort, a, key, data)


def concat(args):
    out = []
    for x in args:
        for y in (x.args if x.op == 'concat' else (x,)):
            if y.is_const and y.data == '':
                continue
            if out and _mergeable(out[-1], y):
                f = _fold('concat', 'str', (out[-1], y))
                if f is not None:
                    out[-1] = f
                    continue
            out.append(y)
    if not out:
        return const('', 'str')
    if len(out) == 1:
        return out[0]
    return _intern('concat', 'str', out, None, None)


def _mergeable(x, y):
    if x.op not in ('const', 'tab') or y.op not in ('const', 'tab'):
        return False
    return True


def mk_ac(op, sort, args):
    k = (op, sort, tuple(a.id for a in args))
    r = _mkmemo.get(k)
    if r is None:
        r = _mkmemo[k] = _mk_ac(op, sort, args)
    return r


def _mk_ac(op, sort, args):
    flat = []
    for a in args:
        if a.op == op and a.sort == sort:
            flat.extend(a.args)
        else:
            flat.append(a)
    ident = identity(op, sort)
    c = None
    rest = []
    for a in flat:
        if a.is_const:
            c = a if c is None else _fold(op, sort, (c, a))
        else:
            rest.append(a)
    boolean = sort == 'bool'
    if boolean and op in ('and', 'or'):
        absorb = FALSE if op == 'and' else TRUE
        if c is not None and c is absorb:
            return absorb
        c = None
    if op in ('and', 'or') and not boolean and c is not None:
        absorb = const(0, sort) if op == 'and' else const(-1, sort)
        if c is absorb:
            return absorb
    if op == 'mul' and c is not None and c.data == 0:
        return c
    # merge tables over the same (or nested, small) dimensions
    if op in ('and', 'or'):
        seen = {}
        for a in rest:
            seen[a.id] = a
        rest = list(seen.values())
    if boolean and op in ('and', 'or'):
        # absorption: x & (x | y) = x ; x | (x & y) = x ; x & (!x | y) = x & y
        dual = 'or' if op == 'and' else 'and'
        ids = set(a.id for a in rest)
        negs = set()
        for a in rest:
            negs.add(mk('not', 'bool', a).id if a.op in ('tab', 'not') else -a.id)
        new = []
        changed = False
        for a in rest:
            if a.op == dual:
                if any(b.id in ids for b in a.args):
                    changed = True
                    continue
                keep = []
                for b in a.args:
                    nb = mk('not', 'bool', b)
                    if nb.id in ids:
                        continue
                    keep.append(b)
                if len(keep) != len(a.args):
                    changed = True
                    new.append(mk_ac(dual, 'bool', keep))
                    continue
            new.append(a)
        if changed:
            return mk_ac(op, sort, new)
    groups = {}
    out = []
    for a in rest:
        if a.op == 'tab':
            groups.setdefault(a.data[0], []).append(a)
        else:
            out.append(a)
    for d, g in groups.items():
        r = g[0]
        for a in g[1:]:
            f = _fold(op, sort, (r, a))
            if f is None:
                out.append(a)
            else:
                r = f
        if r.is_const:
            c = r if c is None else _fold(op, sort, (c, r))
        else:
            out.append(r)
    if op == 'and' and not boolean and c is None and len(out) > 1:
        # bits no operand but one can have do not matter in that one
        ms = [int(np.bitwise_or.reduce(a.data[1], axis=None)) if a.op == 'tab' and a.data[1].size <= 4096 and a.data[1].dtype != object else -1
              for a in out]
        new = []
        for i, a in enumerate(out):
            m = -1
            for j, x in enumerate(ms):
                if j != i:
                    m &= x
            new.append((_fold('and', sort, (a, const(m, sort))) or a) if a.op == 'tab' and m & ms[i] != ms[i] else a)
        if any(x is not y for x, y in zip(new, out)):
            return mk_ac(op, sort, new)
    if c is not None and c is not ident and out:
        if op == 'and' and not boolean:
            # a mask distributes into every operand it can reach
            new, reached = [], False
            for a in out:
                if a.op == 'tab':
                    a2 = _fold('and', sort, (a, c)) or a
                    reached = True
                elif a.op == 'or':
                    a2 = mk_ac('or', sort, [mk_ac('and', sort, (z, c)) for z in a.args])
                    reached = True
                else:
                    a2 = a
                new.append(a2)
            if reached:
                if any(x is not y for x, y in zip(new, out)):
                    return mk_ac(op, sort, new)       # the mask now lives in the operands
                c = None
        elif len(out) == 1 and out[0].op == 'tab':
            f = _fold(op, sort, (out[0], c))
            if f is not None:
                return f
    if boolean and op in ('and', 'or'):
        ids = set(a.id for a in out)
        for a in out:
            if a.op == 'not' and a.args[0].id in ids:
                return FALSE if op == 'and' else TRUE
            if a.op == 'tab' and a.data[1].size <= 4096:
                if mk('not', 'bool', a).id in ids:
                    return FALSE if op == 'and' else TRUE
        for a in out:
            if a.is_const:
                return mk_ac(op, sort, out)
    if op == 'xor':
        cnt = {}
        for a in out:
            cnt[a.id] = (a, cnt.get(a.id, (a, 0))[1] + 1)
        out = [a for a, n in cnt.values() if n % 2]
    return _final(op, sort, out, c, ident)


_bits = {}


def bits(t):
    """The bits a non-negative integer term can have, or None."""
    if t.id not in _bits:
        r = None
        if t.is_const:
            r = t.data if t.data >= 0 else None
        elif t.op == 'tab':
            a = t.data[1]
            if a.dtype != object and a.size <= 1 << 21 and (t.sort[0] == 'u' or a.min() >= 0):
                r = int(np.bitwise_or.reduce(a, axis=None))
        elif t.op == 'or':
            r = 0
            for x in t.args:
                b = bits(x)
                if b is None:
                    r = None
                    break
                r |= b
        _bits[t.id] = r
    return _bits[t.id]


def _final(op, sort, out, c, ident):
    if c is not None and c is not ident:
        out = [c] + list(out)
    if op == 'add' and len(out) > 1 and isinstance(sort, tuple) and sort[0] in ('i', 'u'):
        seen = 0
        for a in out:               # a sum of disjoint bits is their union
            b = bits(a)
            if b is None or b & seen:
                break
            seen |= b
        else:
            return mk_ac('or', sort, out)
    if not out:
        return ident
    if len(out) == 1:
        return out[0]
    out = sorted(out, key=lambda t: (0 if t.is_const else 1, t.id))
    f = _fold(op, sort, out)
    if f is not None:
        return f
    return _intern(op, sort, out, None, None)


def force(t, limit=1 << 22):
    """The term as an explicit table (or constant), if its joint domain is small enough."""
    if t.op in ('const', 'tab'):
        return t
    if t.syms:
        raise Unsupported('forcing a term over unknowns')
    size = 1
    for d in t.dims:
        size *= d.size
    if size > limit:
        raise Unsupported('forcing a table of %d points' % size)
    dl = sorted(t.dims)
    if not dl:
        r = evaluate(t, {})
        return const(r.item() if hasattr(r, 'item') else r, t.sort)
    env = grid([(d, np.arange(d.size)) for d in dl])
    return tab(dl, np.broadcast_to(evaluate(t, env), tuple(d.size for d in dl)), t.sort)


# ------------------------------------------------------------------ convenience
def ite(c, x, y):
    if c.is_const:
        return x if c.data else y
    if x is y:
        return x
    return mk('ite', x.sort, c, x, y)


def land(*a):
    return mk_ac('and', 'bool', a)


def lor(*a):
    return mk_ac('or', 'bool', a)


def lnot(a):
    return mk('not', 'bool', a)


def eq(a, b):
    if a.sort != b.sort:
        raise Unsupported('eq of %s and %s' % (a.sort, b.sort))
    return mk('eq', 'bool', a, b)


def lt(a, b):
    return mk('lt', 'bool', a, b)


def add(a, b):
    return mk_ac('add', a.sort, (a, b))


def sub(a, b):
    return mk('sub', a.sort, a, b)


def cast(a, sort):
    if a.sort == sort:
        return a
    return mk('cast', sort, a)


def chrterm(c):
    return mk('chr', 'str', c)


def sconst(s):
    return const(s, 'str')


# ------------------------------------------------------------------ substitution
def rebuild(t, args):
    if t.op in COMM:
        return mk_ac(t.op, t.sort, args)
    if t.op == 'concat':
        return concat(args)
    return mk(t.op, t.sort, *args, data=t.data)


def subst(t, m, memo=None):
    """Replace whole sub-terms: m maps Term -> Term."""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if not t.args:
            r = t
        else:
            na = [_subst(a, m, memo) for a in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                r = t
            else:
                r = rebuild(t, na)
    memo[t.id] = r
    return r


def restrict(t, env, memo=None):
    """Re-index dimensions: env maps Dim -> int or (new Dim, index array)."""
    if memo is None:
        memo = {}
    return _restrict(t, env, memo)


def _restrict(t, env, memo):
    if not t.dims or not any(d in env for d in t.dims):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'tab':
        dims, arr = t.data
        # gather axis by axis
        nd = []
        idx_axes = []
        for ax, d in enumerate(dims):
            e = env.get(d)
            if e is None:
                nd.append(d)
            elif not isinstance(e, (int, np.integer)):
                e0, ia = e
                if not isinstance(e0, (list, tuple)):
                    e0 = (e0,)
                for n in e0:
                    if n not in nd:
                        nd.append(n)
        pos = {d: i for i, d in enumerate(nd)}
        ix = []
        for ax, d in enumerate(dims):
            e = env.get(d)
            if e is None:
                sh = [1] * len(nd)
                sh[pos[d]] = d.size
                ix.append(np.arange(d.size).reshape(sh))
            elif isinstance(e, (int, np.integer)):
                ix.append(np.array(int(e)))
            else:
                e0, ia = e
                if not isinstance(e0, (list, tuple)):
                    e0 = (e0,)
                ia = np.asarray(ia)
                # axes of ia are e0 in order
                order = sorted(range(len(e0)), key=lambda i: pos[e0[i]])
                ia = np.transpose(ia, order) if ia.ndim > 1 else ia
                sh = [1] * len(nd)
                for n in e0:
                    sh[pos[n]] = n.size
                ix.append(ia.reshape(sh))
        if nd:
            res = arr[tuple(np.broadcast_arrays(*ix))]
            # a broadcast over all nd
            full = tuple(d.size for d in nd)
            res = np.broadcast_to(res, full)
            r = tab(nd, res, t.sort)
        else:
            r = const(arr[tuple(int(i) for i in ix)], t.sort) if t.sort != 'str' else const(arr[tuple(int(i) for i in ix)], 'str')
    else:
        r = rebuild(t, [_restrict(a, env, memo) for a in t.args])
    memo[t.id] = r
    return r


# ------------------------------------------------------------------ numeric evaluation
def evaluate(t, env, memo=None):
    """env: Dim -> integer array (all broadcastable).  Returns an ndarray."""
    if memo is None:
        memo = {}
    with np.errstate(all='ignore'):
        return _evaluate(t, env, memo)


def _evaluate(t, env, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    # iterative over deep terms is unnecessary: depth is bounded by program size
    if t.op == 'const':
        r = _as_np(t.data, t.sort) if t.sort != 'str' else _strarr(t.data)
    elif t.op == 'tab':
        dims, arr = t.data
        r = arr[tuple(env[d] for d in dims)]
    elif t.op == 'sym':
        raise Unsupported('evaluating symbol %s' % t.data)
    else:
        xs = [_evaluate(a, env, memo) for a in t.args]
        r = _apply(t.op, t.sort, t.args, xs, t.data)
    memo[t.id] = r
    return r


def leaves(t):
    """All table leaves of a term."""
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'tab':
            out[x.id] = x
        st.extend(x.args)
    return list(out.values())


def quotient(terms, limit=None):
    """Partition every dimension the terms depend on into classes the terms cannot tell apart.
    Returns {dim: (representatives, class index per point)}."""
    by = {}
    for t in terms:
        for l in leaves(t):
            for d in l.data[0]:
                by.setdefault(d, {})[l.id] = l
    out = {}
    for d, ls in by.items():
        ck = (d, frozenset(ls))
        hit = _qcache.get(ck)
        if hit is not None:
            out[d] = hit
            continue
        key = None
        for l in ls.values():
            c = _leaf_classes(l, d)
            if key is None:
                key = c
            else:
                key = key * (int(c.max()) + 1) + c
                _, key = np.unique(key, return_inverse=True)
                key = key.reshape(-1)
        _, rep, inv = np.unique(key, return_index=True, return_inverse=True)
        out[d] = _qcache[ck] = (rep, inv.reshape(-1))
    return out


_qcache = {}
_lcache = {}


def _leaf_classes(l, d):
    """Class index per point of d: points that the table l cannot tell apart share a class."""
    ck = (l.id, d)
    r = _lcache.get(ck)
    if r is not None:
        return r
    dims, arr = l.data
    ax = dims.index(d)
    a = np.moveaxis(arr, ax, 0).reshape(d.size, -1)
    if a.dtype == object or (a.shape[1] > 1 and d.size <= 4096):
        u = {}
        if a.dtype == object:
            r = np.array([u.setdefault(tuple(row), len(u)) for row in a.tolist()], dtype=np.int64)
        else:
            a = np.ascontiguousarray(a)
            r = np.array([u.setdefault(row.tobytes(), len(u)) for row in a], dtype=np.int64)
    elif a.shape[1] > 1:
        _, r = np.unique(a, axis=0, return_inverse=True)
        r = r.reshape(-1).astype(np.int64)
    else:
        _, r = np.unique(a[:, 0], return_inverse=True)
        r = r.reshape(-1).astype(np.int64)
    _lcache[ck] = r
    return r


def grid(dims_reps):
    """dims_reps: list of (dim, index array) -> env of broadcastable open grid."""
    n = len(dims_reps)
    env = {}
    for i, (d, r) in enumerate(dims_reps):
        sh = [1] * n
        sh[i] = len(r)
        env[d] = np.asarray(r).reshape(sh)
    return env


MAXGRID = 60_000_000


def satisfiable(t, extra=None):
    """Is a boolean term true for some point?  Returns None if never, else a witness {dim: index}.
    Exact: the term is evaluated on the quotient of its dimensions."""
    if t.is_const:
        return {} if t.data else None
    if t.syms:
        raise Unsupported('satisfiability of a term over unknowns')
    if t.op == 'or':
        undecided = None
        for a in t.args:
            try:
                w = satisfiable(a)
            except Unsupported as e:
                undecided = e
                continue
            if w is not None:
                return w
        if undecided is not None:
            raise undecided
        return None
    q = quotient([t])
    size = 1
    for rep, _ in q.values():
        size *= len(rep)
    if size <= MAXGRID:
        dl = sorted(q)
        env = grid([(d, q[d][0]) for d in dl])
        r = np.broadcast_to(evaluate(t, env), tuple(len(q[d][0]) for d in dl))
        w = np.argwhere(r)
        if len(w) == 0:
            return None
        return {d: int(q[d][0][i]) for d, i in zip(dl, w[0])}
    if t.op == 'and':
        # a conjunct that is never true settles it
        for a in t.args:
            try:
                if satisfiable(a) is None:
                    return None
            except Unsupported:
                pass
        # independent groups of conjuncts
        groups = []
        for a in t.args:
            hit = [g for g in groups if g[0] & a.dims]
            d, l = set(a.dims), [a]
            for g in hit:
                groups.remove(g)
                d |= g[0]
                l += g[1]
            groups.append((d, l))
        if len(groups) > 1:
            w = {}
            for d, l in groups:
                x = satisfiable(land(*l))
                if x is None:
                    return None
                w.update(x)
            return w
    raise Unsupported('domain of %d points is too large to tabulate' % size)


def show(t, depth=6):
    if t.op == 'const':
        return repr(t.data)
    if t.op == 'tab':
        dims, arr = t.data
        s = ','.join(d.name for d in dims)
        if arr.size <= 14:
            return 'T<%s>%s' % (s, arr.tolist())
        return 'T<%s>#%d' % (s, t.id)
    if t.op == 'sym':
        return '$' + str(t.data)
    if depth == 0:
        return '...'
    return '%s(%s)' % (t.op if t.data is None else t.op + ':' + getattr(t.data, 'name', '?'),
                       ', '.join(show(a, depth - 1) for a in t.args))
