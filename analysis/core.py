"""Obligations, verdicts and the value comparisons the checks are written with."""
import itertools
import json
import os
import random
import time
import traceback
import numpy as np
import build
import oracle
from terms import *
from terms import Lut
from values import *
from prog import Prog
from interp import Diverged, MapLut
from world import *

LESS, EQUAL, GREATER = 0, 1, 2
SAMPLES = {'str': ['', 'x', '2', '2c', 'Zz', '\u00e9', 'AsX', '\u2660\u00fcq', ' 2c', '10c', 'a longer piece of text']}


class Missing(Exception):
    """The public operation a rule is about is not there any more."""


class OutOfTime(BaseException):
    """The time of the whole run is used up: what is left stays undecided."""


EXPIRED = []


def first_error(log):
    m = [l for l in log.splitlines() if l.startswith('error')]
    return m[0] if m else log[:200]


class Ctx:
    def __init__(self, prop, thorough=False, release=False, static=False, bare=False):
        self.prop = prop
        self.release = release
        self.build = 'without debug assertions: ' if release else 'with the static tables: ' if static else 'without default features: ' if bare else ''
        self.thorough = thorough
        self.obs = []
        self.t0 = time.time()
        self.dumps, self.gone = build.dump(release=release, static=static, bare=bare)
        self._w = None
        self._poly = None

    @property
    def w(self):
        if self._w is None:
            self._w = World(Prog(os.path.join(self.dumps, 'vroots.mono.json')))
            self._w.gone = self.gone
        return self._w

    _ws = None

    @property
    def ws(self):
        """The same, for the crate with the static_lookup feature."""
        if self._ws is None:
            try:
                d, gone = build.dump(release=self.release, static=True)
            except build.BuildFailed as e:
                raise Unsupported('with the static tables the crate does not build: ' + first_error(str(e)))
            self._ws = World(Prog(os.path.join(d, 'vroots.mono.json')))
            self._ws.gone = gone
        return self._ws

    @property
    def poly(self):
        if self._poly is None:
            with open(os.path.join(self.dumps, 'poker.poly.json')) as f:
                self._poly = json.load(f)
        return self._poly

    only = found = todo = None
    start = _w0 = None

    @property
    def w0(self):
        """The crate at its first call, where w is the crate after earlier ones."""
        if self.start is None:
            return self.w
        if self._w0 is None:
            self._w0 = World(self.w.P)
            self._w0.gone = self.gone
            self._w0.scenario = self.start
        return self._w0

    def guarded(self, f):
        """Run a whole check; trouble outside any obligation is one undecided obligation."""
        only, self.only = self.only, None
        err = []

        def go():
            self.only = only
            f(self)
            return 'checked'
        n = len(self.obs)
        self.ob('set up', 'the operations the rules talk about exist and can be analysed', go)
        o = self.obs.pop()
        self.obs[n:n] = [o]

    def functions(self):
        names = set()
        for w in (self._w, self._ws):
            if w is not None:
                for k in w.analysed:
                    names.add(w.P.insts[k]['name'])
        return sorted(names)

    def assumptions(self):
        return ['the standard library and rand functions behave as their transfer functions in analysis/models.py say',
                'rustc\'s MIR of the crate means what the interpreter says it means']

    def ob(self, name, rule, f, *a):
        """Run one obligation.  f returns a description (or count) of what was covered."""
        if self.only and self.only not in name:
            return None
        if self.todo is not None and name not in self.todo and name != 'set up':
            return None
        if EXPIRED:
            self.obs.append({'name': name, 'rule': rule, 'status': 'undecided', 'why': 'out of time', 's': 0})
            return None
        o = {'name': self.build + name, 'rule': rule}
        t = time.time()
        try:
            r = f(*a)
            o['status'] = 'held'
            if r is not None:
                o['covered'] = r
        except Broken as e:
            o['status'] = 'broken'
            o['where'] = e.where
            o['what'] = e.what
        except Missing as e:
            o['status'] = 'undecided'
            o['why'] = 'not available: %s' % e
        except Diverged as e:
            o['status'] = 'undecided'
            o['why'] = '%s: %s' % (type(e).__name__, e)
            for ev in getattr(e, 'events', []):
                try:
                    p = find(ev.guard)
                except Unsupported:
                    continue
                if p is not None:
                    # it panics where a result is due
                    o.pop('why', None)
                    o['status'] = 'broken'
                    o['where'] = ev.where()
                    o['what'] = 'a panic in place of a result: %s [%s]' % (ev.msg, describe_point(None, p, ev.guard.dims))
                    break
        except Unsupported as e:
            o['status'] = 'undecided'
            o['why'] = '%s: %s' % (type(e).__name__, e)
        except OutOfTime:
            EXPIRED.append(name)
            o['status'] = 'undecided'
            o['why'] = 'out of time'
        except RecursionError as e:
            o['status'] = 'undecided'
            o['why'] = 'recursion too deep'
        except MemoryError:
            o['status'] = 'undecided'
            o['why'] = 'out of memory'
        except Exception as e:
            o['status'] = 'undecided'
            o['why'] = 'internal %s: %s' % (type(e).__name__, e)
            o['trace'] = traceback.format_exc()[-1500:]
        o['s'] = round(time.time() - t, 2)
        self.obs.append(o)
        if o['status'] == 'broken' and self.found:
            self.found(o)
        return o


# ------------------------------------------------------------------ deciding conditions
def describe_point(w, pt, dims):
    out = {}
    for d, i in sorted(pt.items(), key=lambda x: x[0].id):
        lab = getattr(d, 'label', None)
        if callable(lab):
            out[d.name] = lab(i)
        elif d.size == 13 and d.name.startswith('r'):
            out[d.name] = oracle.RANKS[i]
        elif d.size == 4 and d.name.startswith('s'):
            out[d.name] = oracle.SUITS[i]
        elif d.size == oracle.NCLASS:
            k = oracle.CLASSES[i]
            out[d.name] = '%s (%s)' % (oracle.class_text(k[1], k[2]), hand_text(oracle.REPS[i]))
        elif d.size > 1000000:
            out[d.name] = repr(chr(int(CHARS[i])))
        else:
            out[d.name] = i
    return ', '.join('%s=%s' % kv for kv in out.items()) or 'always'


CHARS = np.concatenate([np.arange(0xD800), np.arange(0xE000, 0x110000)])


def charof(name):
    """A term ranging over all Unicode scalar values."""
    return dimvar(Dim(name, len(CHARS)), CHARS, 'char')


def charset(c, chars):
    """Position of the character in `chars` as a table (len(chars) for all others)."""
    d = next(iter(c.dims))
    vals = c.data[1]
    a = np.full(len(vals), len(chars), dtype=np.int64)
    for i, ch in enumerate(chars):
        k = np.searchsorted(vals, ord(ch))
        if k < len(vals) and vals[k] == ord(ch):
            a[k] = i
    return tab([d], a, USIZE)


def char_classes():
    """All Unicode scalar values, split by width in UTF-8 and by being white space."""
    from models import WHITE
    white = np.isin(CHARS, WHITE)
    lo = 0
    out = []
    for n, hi in ((1, 0x80), (2, 0x800), (3, 0x10000), (4, 0x110000)):
        m = (CHARS >= lo) & (CHARS < hi)
        for k, name in ((m & ~white, ''), (m & white, ' white')):
            if k.any():
                out.append(('%d-byte%s' % (n, name), CHARS[k]))
        lo = hi
    return out


def class_char(name, vals):
    return dimvar(Dim(name, len(vals), label=lambda i, v=vals: repr(chr(int(v[i])))), vals, 'char')


def by_class(names, f, most=3000):
    """f over every combination of classes for the named characters; f takes the character terms.
    A class over which an operation is not uniform is split by the condition it turns on."""
    work = list(itertools.product(*[[v for _, v in char_classes()] for _ in names]))[::-1]
    k = 0
    while work:
        vals = work.pop()
        cs = [class_char(n, v) for n, v in zip(names, vals)]
        try:
            f(cs)
            k += 1
            continue
        except Unsupported as e:
            parts = split_classes(cs, vals, getattr(e, 'split', None))
            if parts is None or k + len(work) + len(parts) > most:
                raise
        work += parts
    return k


def split_classes(cs, vals, cond):
    if cond is None or cond.syms:
        return None
    q = quotient([cond])
    out = []
    for c, v in zip(cs, vals):
        d = next(iter(c.dims), None)
        if d in q and len(q[d][0]) > 1:
            n = len(q[d][0])
            if n > 40:
                return None
            out.append([v[q[d][1] == i] for i in range(n)])
        else:
            out.append([v])
    parts = list(itertools.product(*out))
    return parts if len(parts) > 1 else None


def ends(sort):
    k, b = sort
    return ((1 << b) - 1,) if k == 'u' else ((1 << (b - 1)) - 1, -1, -(1 << (b - 1)))


def find(cond):
    """A point where the condition is true, or None if there is none (exact); Unsupported if unknown."""
    if cond is FALSE:
        return None
    try:
        return satisfiable(cond)
    except Unsupported as e:
        err = e
    # a concrete point still settles it in one direction
    rnd = random.Random(1)
    syms = sorted(cond.syms, key=lambda t: t.id)
    choices = []
    for s in syms:
        if s.sort == 'str':
            choices.append([const(x, 'str') for x in SAMPLES['str']])
        elif s.sort == 'bool':
            choices.append([FALSE, TRUE])
        elif s.sort == 'char':
            choices.append([const(ord(c), 'char') for c in '2Ax\u00e9'])
        else:
            choices.append([const(v, s.sort) for v in (0, 1, 2, 4, 5, 6, 7, 52, 255, 1000, *ends(s.sort))])
    combos = list(itertools.islice(itertools.product(*choices), 400))
    special = [int(np.searchsorted(CHARS, ord(c))) for c in '2AajcSCKk1\u00e9\u2660 \u0130\u212a']
    for combo in combos:
        t = subst(cond, dict(zip(syms, combo))) if syms else cond
        if t is FALSE:
            continue
        if t is TRUE:
            return {}
        try:
            if syms:
                p = satisfiable(t)
                if p is not None:
                    return p
                continue
        except Unsupported:
            pass
        q = quotient([t])
        env = {}
        n = 4000
        for d in t.dims:
            reps = list(q[d][0]) if d in q else list(range(d.size))
            pool = [rnd.choice(reps) for _ in range(60)]
            if d.size > 1000000:
                pool += special * 3
            env[d] = np.array([rnd.choice(pool) for _ in range(n)])
        try:
            v = np.broadcast_to(evaluate(t, env), (n,))
        except Unsupported:
            continue
        k = np.nonzero(v)[0]
        if len(k):
            return {d: int(a[k[0]]) for d, a in env.items()}
    raise err


def never(cond, where, what, w=None):
    p = find(cond)
    if p is not None:
        raise Broken(where, '%s [%s]' % (what, describe_point(w, p, cond.dims)))


def points(*dims):
    n = 1
    for d in dims:
        n *= d.size
    return n


# ------------------------------------------------------------------ equality of abstract values
def content_when(v, good):
    """The items of a list in the cases in which `good` holds, where they are the same places in all of them."""
    c = v.content if isinstance(v, Vec) else v
    if isinstance(c, Log) and not any(isinstance(x, Dim) for e in c.entries for x in e.time or ()):
        out = []
        for e in c.entries:
            if e.guard is not TRUE:
                if find(land(good, lnot(e.guard))) is not None:
                    if find(land(good, e.guard)) is not None:
                        raise Unsupported('contents of %r' % (c,))
                    continue
            out.append(e.value)
        return out
    return content(v)


def content(v):
    c = v.content if isinstance(v, Vec) else v
    if isinstance(c, Arr):
        return list(c.items)
    if isinstance(c, Stack):
        return [vrestrict(c.item, {c.dim: i}) for i in range(c.dim.size)]
    if isinstance(c, Log) and len(c.entries) == 1 and c.entries[0].guard is TRUE:
        e = c.entries[0]
        ds = [x for x in e.time if isinstance(x, Dim)]
        if len(ds) == 1:
            return [vrestrict(e.value, {ds[0]: i}) for i in range(ds[0].size)]
    if isinstance(c, Log) and all(e.guard is TRUE for e in c.entries):
        out, last = [], -1
        for e in c.entries:
            t = e.time or ()
            if not t:
                if last >= 0:
                    break
                out.append(e.value)
                continue
            if len(t) > 2 or isinstance(t[0], Dim) or t[0] <= last or len(t) == 2 and not isinstance(t[1], Dim):
                break
            last = t[0]
            out += [vrestrict(e.value, {t[1]: i}) for i in range(t[1].size)] if len(t) == 2 else [e.value]
        else:
            return out
    raise Unsupported('contents of %r' % (c,))


def differ(a, b):
    """Term: the two values are different (on the cases where both are meaningful)."""
    if a is b:
        return FALSE
    if isinstance(a, Term) and isinstance(b, Term):
        return lnot(eq(a, b))
    if isinstance(a, (Str, StrRef)) and isinstance(b, (Str, StrRef)):
        return text_differs(a.term, b.term)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
        return lor(*[differ(x, y) for x, y in zip(a.fields, b.fields)]) if a.fields else FALSE
    if isinstance(a, Enum) and isinstance(b, Enum):
        out = [lnot(eq(a.disc, b.disc))]
        for k in set(a.vs) & set(b.vs):
            fs = [differ(x, y) for x, y in zip(a.vs[k], b.vs[k])]
            if fs:
                out.append(land(eq(b.disc, const(k, VIDX)), eq(a.disc, const(k, VIDX)), lor(*fs)))
        return lor(*out)
    if isinstance(a, (Vec, Arr, Stack)) and isinstance(b, (Vec, Arr, Stack)):
        x, y = content(a), content(b)
        if len(x) != len(y):
            return TRUE
        return lor(*[differ(p, q) for p, q in zip(x, y)]) if x else FALSE
    raise Unsupported('comparison of %r with %r' % (a, b))


def text_differs(a, b):
    if a is b:
        return FALSE
    pa = list(a.args) if a.op == 'concat' else [a]
    pb = list(b.args) if b.op == 'concat' else [b]
    # strip equal ends
    while pa and pb and pa[0] is pb[0]:
        pa.pop(0)
        pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]:
        pa.pop()
        pb.pop()
    if not pa and not pb:
        return FALSE
    if a.op == 'ite':
        return lor(land(a.args[0], text_differs(a.args[1], b)), land(lnot(a.args[0]), text_differs(a.args[2], b)))
    if b.op == 'ite':
        return lor(land(b.args[0], text_differs(a, b.args[1])), land(lnot(b.args[0]), text_differs(a, b.args[2])))
    if not pa or not pb:
        rest = pa or pb
        if any(x.is_const and x.data for x in rest) or any(x.op == 'chr' for x in rest):
            return TRUE
    return lnot(eq(concat(pa), concat(pb)))


def same_value(got, want, where, what, w):
    never(differ(got, want), where, what, w)


def no_events(r, what='panics'):
    """Every panic site the run reached has an unsatisfiable condition."""
    for e in r.events:
        p = find(e.guard)
        if p is not None:
            raise Broken(e.where(), '%s [%s]' % (e.msg, describe_point(None, p, e.guard.dims)))


# ------------------------------------------------------------------ types
def adt(w, ty):
    return w.P.types[ty]


def deref(w, ty):
    T = w.P.types[ty]
    return T['ty'] if T['k'] in ('ref', 'ptr') else ty


def vnum(w, ty, name):
    for i, v in enumerate(w.P.types[ty]['variants']):
        if v['name'] == name:
            return i
    raise Broken(w.P.types[ty]['path'], 'there is no variant %s any more' % name)


def fnum(w, ty, var, name):
    for i, f in enumerate(w.P.types[ty]['variants'][var]['fields']):
        if f['name'] == name:
            return i
    raise Broken(w.P.types[ty]['path'], 'variant %s has no field %s any more' % (w.P.types[ty]['variants'][var]['name'], name))


def table(t, dims):
    """The term as an array over exactly these dimensions (in this order)."""
    extra = t.dims - set(dims)
    if extra or t.syms:
        raise Unsupported('the result depends on more than %s' % [d.name for d in dims])
    env = grid([(d, np.arange(d.size)) for d in dims])
    return np.broadcast_to(evaluate(t, env), tuple(d.size for d in dims))


def ok_err(w, root):
    """(variant number of Ok, of Err) in the Result a root returns."""
    ty = w.retty(root)
    return vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')


# ------------------------------------------------------------------ sizes
def int_constants(b, out):
    """The integer literals of a MIR body."""
    if isinstance(b, dict):
        if 'int' in b:
            try:
                out.add(int(b['int']))
            except (TypeError, ValueError):
                pass
        for v in b.values():
            int_constants(v, out)
    elif isinstance(b, list):
        for v in b:
            int_constants(v, out)


def long_sizes(x, match, base=(60,), lo=4, hi=300):
    """Sequence lengths beyond every length-like constant of the functions a rule is about."""
    out = set(base)
    for f in x.poly['fns']:
        if f.get('body') is not None and match(f['path']):
            s = set()
            int_constants(f['body'], s)
            for c in s:
                if lo <= c <= hi:
                    out |= {c, c + 1}
    return sorted(out)
