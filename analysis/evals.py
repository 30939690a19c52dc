"""Every ordered five-card hand as a number, and the domain of all evaluations that exist."""
import itertools
import numpy as np
import oracle
from core import *
from score import ScoreHook, Selections, six_plus, HOOK, vkey

REFUSED, PANIC = -1, -2


class Registry:
    """Numbers the evaluation values that occur; inactive fields do not count."""

    def __init__(self, w, v):
        self.w = w
        self.template = v
        cols = columns(v)
        self.paths = [c[0] for c in cols]
        self.acts = [c[1] for c in cols]
        self.sorts = [c[2].sort for c in cols]
        if any(c[2].syms for c in cols):
            raise Unsupported('an evaluation made of unknowns')
        self.rows = {}
        self.list = []
        self.witness = []

    def add(self, row, wit):
        i = self.rows.get(row)
        if i is None:
            i = self.rows[row] = len(self.list)
            self.list.append(row)
            self.witness.append(wit)
        return i

    def normalise(self, arrs):
        """Zero the fields of variants that are not there; arrays by column."""
        at = {p: a for p, a in zip(self.paths, arrs)}
        out = []
        for p, act, a in zip(self.paths, self.acts, arrs):
            for q, var in act:
                a = np.where(at[q] == var, a, 0)
            out.append(a)
        return out

    def align(self, v):
        """The terms of v in the order of the columns (None: the variant is not present)."""
        cs = {c[0]: c[2] for c in columns(v)}
        if not set(cs) <= set(self.paths):
            raise Unsupported('evaluations of different shapes')
        return [cs.get(p) for p in self.paths]

    def number(self, arrs, wits):
        """Value numbers for parallel arrays; wits: function from position to a witness."""
        arrs = [np.asarray(a).astype(np.int64).reshape(-1) for a in self.normalise(arrs)]
        n = len(arrs[0])
        key = np.zeros(n, dtype=np.int64)
        for a in arrs:
            _, inv = np.unique(a, return_inverse=True)
            inv = inv.reshape(-1)
            key = key * (int(inv.max()) + 1) + inv
            if key.max() > 1 << 40:
                _, key = np.unique(key, return_inverse=True)
                key = key.reshape(-1)
        _, first, inv = np.unique(key, return_index=True, return_inverse=True)
        inv = inv.reshape(-1)
        if len(first) > 60000:
            raise Unsupported('%d different evaluations' % len(first))
        ids = np.array([self.add(tuple(int(a[k]) for a in arrs), wits(int(k))) for k in first], dtype=np.int64)
        return ids[inv]


def widened(w, v):
    """The value with the variants that only the two constants have."""
    def join(a, b):
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
            return Agg([join(p, q) for p, q in zip(a.fields, b.fields)], a.ty)
        if isinstance(a, Enum) and isinstance(b, Enum):
            vs = dict(b.vs)
            vs.update({k: tuple(join(p, q) for p, q in zip(f, b.vs[k])) if k in b.vs else f for k, f in a.vs.items()})
            return Enum(a.disc, vs, a.ty)
        return a
    for root in ('eval_best', 'eval_worst'):
        v = join(v, w.run(root, []).value)
    return v


class FiveTable:
    """The evaluation number of every ordered hand of five distinct cards."""

    def __init__(self, w, ev='ev_new', entry='ev_slice'):
        self.w = w
        q = run_five(w, ev, entry)
        self.q = q
        self.where = w.where(entry)
        v = q.value
        ok, er = ok_err(w, entry)
        self.ok = ok
        if ok not in v.vs:
            raise Unsupported('no evaluation of five cards')
        e = v.vs[ok][0]
        if 'registry' not in w.cache:
            w.cache['registry'] = (True, Registry(w, widened(w, e)))
        self.reg = reg = w.cache['registry'][1]
        al = [const(0, s) if t is None and s != 'bool' else t for t, s in zip(reg.align(e), reg.sorts)]
        if any(t is None for t in al):
            raise Unsupported('evaluations of different shapes')
        hs = self.hs = HandSpace(w)
        events = [x for x in q.events]
        terms = [v.disc] + [x.guard for x in events] + al
        self.groups = []            # (flush, members, mask, ids)
        self.events = []            # (event, hand)
        self.refused = None
        self.hands = 0
        self.of_class = {}          # (value number, class) -> hand
        self.suit_group = np.full(1024, -1)
        shape = (13,) * 5
        for fl, members, res in hs.groups(terms):
            mask, wit = hs.feasible(members)
            if not mask.any():
                continue
            env = hs.rank_grid()
            memo = {}
            arrs = [np.broadcast_to(evaluate(t, env, memo), shape) for t in res]
            disc, evs, cols = arrs[0], arrs[1:1 + len(events)], arrs[1 + len(events):]
            ids = np.full(shape, REFUSED, dtype=np.int32)
            pan = np.zeros(shape, dtype=bool)
            for x, g in zip(events, evs):
                hit = mask & g
                if hit.any():
                    ix = tuple(np.argwhere(hit)[0])
                    self.events.append((x, hs.hand(ix, wit[ix])))
                    pan |= hit
            refused = mask & (disc != ok) & ~pan
            if refused.any() and self.refused is None:
                ix = tuple(np.argwhere(refused)[0])
                self.refused = hs.hand(ix, wit[ix])
            sel = mask & ~pan & ~refused
            pts = np.argwhere(sel)
            if len(pts):
                ids[sel] = reg.number([c[sel] for c in cols], lambda k: hs.hand(pts[k], wit[tuple(pts[k])]))
            ids[pan] = PANIC
            cls = oracle.TABLE[1 if fl else 0]
            pairs = ids[sel].astype(np.int64) * 8192 + cls[sel]
            u, first = np.unique(pairs, return_index=True)
            for p, k in zip(u, first):
                key = (int(p // 8192), int(p % 8192))
                if key not in self.of_class:
                    self.of_class[key] = hs.hand(pts[k], wit[tuple(pts[k])])
            for m in members:
                self.suit_group[m] = len(self.groups)
            self.groups.append((fl, members, mask, ids))
            self.hands += int(mask.sum())

    def lookup(self, hands):
        """Value numbers of concrete hands (m, 5, 2)."""
        h = np.asarray(hands)
        s = h[..., 1]
        k = (((s[:, 0] * 4 + s[:, 1]) * 4 + s[:, 2]) * 4 + s[:, 3]) * 4 + s[:, 4]
        g = self.suit_group[k]
        out = np.full(len(h), PANIC)
        for i, (_, _, _, ids) in enumerate(self.groups):
            m = g == i
            r = h[m][..., 0]
            out[m] = ids[tuple(r[:, j] for j in range(5))]
        return out


def any_evaluator(w, ev):
    if ev == 'ev_clone':
        base = w.evaluator('ev_new').value
        return w.cached(('ev', ev), lambda: w.run(ev, lambda h: [h.ref(base)])).value
    if ev == 'ev_clone_from':
        base, other = w.evaluator('ev_new').value, w.evaluator('ev_default').value
        return w.cached(('ev', ev), lambda: w.run(ev, lambda h: [other, h.ref(base)])).value
    return w.evaluator(ev).value


def besides_tables(v):
    """What an evaluator holds besides its tables."""
    if isinstance(v, Map):
        return []
    if isinstance(v, Agg):
        return [c for x in v.fields for c in besides_tables(x)]
    return [(p, str(t.data) if t.is_const else t) for p, _, t in columns(v)]


def clones(w, most):
    """A clone, a clone of the clone, ...: until a clone holds what its original does."""
    v = w.evaluator('ev_new').value
    for k in range(most):
        c = w.run('ev_clone', lambda h: [h.ref(v)])
        yield k + 1, v, c
        if besides_tables(c.value) == besides_tables(v):
            return
        v = c.value


def run_five(w, ev='ev_new', entry='ev_slice'):
    cs = [w.free_card(i)[2] for i in range(5)]
    e = any_evaluator(w, ev)

    def args(h):
        c = h.slice(cs) if entry in ('ev_slice', 'ev_static') else Arr(cs) if entry.endswith('arr5') else Vec(Arr(cs))
        return [h.ref(e), c]
    return w.run(entry, args)


def five_table(w, ev='ev_new', entry='ev_slice'):
    return w.cached(('five table', ev, entry), lambda: FiveTable(w, ev, entry))


def build_value(reg, dim, rows):
    """The evaluation with number = point of dim."""
    arr = np.array(rows, dtype=np.int64).reshape(len(rows), len(reg.paths))
    it = iter(range(len(reg.paths)))

    def col():
        i = next(it)
        return dimvar(dim, arr[:, i].copy(), reg.sorts[i])

    def go(v):
        if isinstance(v, Term):
            return col()
        if isinstance(v, Agg):
            return Agg([go(x) for x in v.fields], v.ty)
        if isinstance(v, Enum):
            d = col()
            vs = {}
            for k in sorted(v.vs):
                vs[k] = tuple(go(x) for x in v.vs[k])
            return Enum(d, vs, v.ty)
        if isinstance(v, Arr):
            return Arr([go(x) for x in v.items])
        raise Unsupported('an evaluation holding %r' % (v,))
    return go(reg.template)


class Domain:
    """All evaluations that exist: of five-card hands, and the two constants."""

    def __init__(self, w):
        self.w = w
        self.ft = ft = five_table(w)
        reg = self.reg = ft.reg
        self.const = {}
        for root in ('eval_best', 'eval_worst'):
            q = w.run(root, [])
            al = reg.align(q.value)
            row = []
            for t in al:
                if t is None:
                    row.append(0)
                elif t.is_const:
                    row.append(int(t.data))
                else:
                    raise Unsupported('%s is not a constant' % root)
            row = [int(a[0]) for a in reg.normalise([np.array([x]) for x in row])]
            self.const[root] = reg.add(tuple(row), 'Eval::' + root[5:].upper())
        self.best, self.worst = self.const['eval_best'], self.const['eval_worst']
        self.n = len(reg.list)
        self.rows = list(reg.list)
        self.dims = {}

    def dim(self, name):
        d = self.dims.get(name)
        if d is None:
            d = self.dims[name] = Dim(name, self.n, label=self.label)
        return d

    def label(self, i):
        x = self.reg.witness[i]
        return x if isinstance(x, str) else hand_text(x)

    def value(self, dim):
        return build_value(self.reg, dim, self.rows)

    def at(self, i):
        d = Dim('one', 1)
        return vrestrict(build_value(self.reg, d, [self.rows[i]]), {d: 0})

    def pair(self, root, byref=True):
        """Result of a binary operation over all pairs of evaluations."""
        def f():
            a, b = self.value(self.dim('a')), self.value(self.dim('b'))
            return self.w.run(root, lambda h: [h.ref(a), h.ref(b)] if byref else [a, b])
        return self.w.cached(('pair', root), f)

    def one(self, root, byref=False):
        def f():
            a = self.value(self.dim('a'))
            return self.w.run(root, lambda h: [h.ref(a)] if byref else [a])
        return self.w.cached(('one', root), f)

    def table2(self, t, conv=lambda a: a, dt=np.int8):
        """A term over both dimensions as an (n, n) array."""
        A, B = self.dim('a'), self.dim('b')
        if t.dims - {A, B} or t.syms:
            raise Unsupported('a comparison that depends on more than the two evaluations')
        out = np.empty((self.n, self.n), dtype=dt)
        b = np.arange(self.n).reshape(1, -1)
        for i in range(0, self.n, 512):
            a = np.arange(i, min(i + 512, self.n)).reshape(-1, 1)
            r = evaluate(t, {A: a, B: b})
            out[i:i + 512] = conv(np.broadcast_to(r, (len(a), self.n)))
        return out

    def col(self, t):
        """A term over the first dimension as an array."""
        return table(t, [self.dim('a')])

    def cmp(self):
        """Total comparison as -1, 0, 1."""
        return self.w.cached('eval cmp', self._cmp)

    def _cmp(self):
        q = self.pair('eval_cmp')
        m = self.ordmap(q.value.ty)
        return self.table2(q.value.disc, lambda a: m[a])

    def ordmap(self, ty):
        names = [v['name'] for v in self.w.P.types[ty]['variants']]
        return np.array([{'Less': -1, 'Equal': 0, 'Greater': 1}[n] for n in names], dtype=np.int8)

    def class_cols(self):
        """[(category name, ranks)] of every evaluation as reported by class()."""
        return self.w.cached('class cols', self._class_cols)

    def _class_cols(self):
        w = self.w
        q = self.one('eval_class')
        return class_list(w, q.value, lambda t: self.col(t))

    def strength(self):
        """The order number of every evaluation by the code's own comparison (0 = weakest)."""
        return self.w.cached('strength', self._strength)

    def _strength(self):
        c = self.cmp()
        less = (c == 1).sum(axis=1)
        u, inv = np.unique(less, return_inverse=True)
        return inv.reshape(-1)


def class_list(w, v, col):
    T = w.P.types[w.class_ty]['variants']
    disc = col(v.disc)
    inv = np.full(len(w.rank_names), -1)
    inv[w.rank_order()] = np.arange(13)
    out = [None] * len(disc)
    for k, fs in v.vs.items():
        sel = np.nonzero(disc == k)[0]
        if not len(sel):
            continue
        name = T[k]['name']
        want = dict(oracle.CATEGORIES).get(name)
        fn = [f['name'] for f in T[k]['fields']]
        if want is None or sorted(fn) != sorted(want):
            raise Unsupported('class %s with fields %s' % (name, fn))
        cols = [inv[np.broadcast_to(col(fs[fn.index(f)].disc), disc.shape)] for f in want]
        for i in sel:
            out[i] = (name, tuple(int(c[i]) for c in cols))
    return out


def domain(w):
    return w.cached('domain', lambda: Domain(w))


# ------------------------------------------------------------------ selections on given hands
def on_hands(hook, sel, terms, hands):
    """Evaluate summary terms (over subset strengths, choices and cards) on given hands (m, n, 2)."""
    h = np.asarray(hands)
    w = hook.w
    n = h.shape[1]
    env = {}
    for i in range(n):
        r, s, _ = w.free_card(i)
        env[r], env[s] = h[:, i, 0], h[:, i, 1]
    for sub, d in hook.dims.items():
        ix = sorted(sub)
        env[d] = oracle.hand_class(h[:, ix, 0], h[:, ix, 1])

    memo = {}

    def need(t):
        for d in t.dims:
            if d not in env:
                if d not in sel.sel:
                    raise Unsupported('a choice of unknown origin')
                c, x, y = sel.sel[d]
                need(c)
                need_name(x)
                need_name(y)
                cv = np.broadcast_to(evaluate(c, env, memo), (len(h),))
                env[d] = np.where(cv, val(x), val(y))

    def need_name(x):
        if x[0] == 'dim' and x[1] not in env:
            need(dimvar(x[1]))

    def val(x):
        return env[x[1]] if x[0] == 'dim' else np.full(len(h), x[1])
    out = []
    for t in terms:
        need(t)
        out.append(np.broadcast_to(evaluate(t, env, memo), (len(h),)))
    return out


def sample_hands(n, m, seed, must=None):
    """Hands of n distinct cards; `must`: classes whose representatives are put in."""
    rnd = np.random.default_rng(seed)
    out = []
    for i in range(m):
        kind = i % 6
        if must and i % 2:
            base = [tuple(c) for c in oracle.REPS[must[int(rnd.integers(len(must)))]].tolist()]
        elif kind == 0:
            base = [tuple(c) for c in oracle.REPS[int(rnd.integers(oracle.NCLASS))].tolist()]
        elif kind == 1:
            k = [int(x) for x in rnd.integers(oracle.NCLASS, size=1)] + [0]
            base = [tuple(c) for c in oracle.REPS[int(rnd.integers(330))].tolist()]
        else:
            base = []
        have = dict.fromkeys(base)
        pool = 52 if kind != 2 else 20
        off = int(rnd.integers(0, 33)) if kind == 2 else 0
        while len(have) < n:
            if kind == 3:
                c = (int(rnd.integers(13)), int(rnd.integers(1, 3)))
                if len(have) > 20:
                    c = (int(rnd.integers(13)), int(rnd.integers(4)))
            else:
                x = off + int(rnd.integers(pool))
                c = (x // 4, x % 4)
                if kind == 2 and len(have) > 16:
                    x = int(rnd.integers(52))
                    c = (x // 4, x % 4)
            have[c] = None
        l = list(have)[:n]
        rnd.shuffle(l)
        out.append([tuple(int(y) for y in c) for c in l])
    return np.array(out)


def rival_hands(n, m, seed):
    """Hands of n cards in which two five-card hands of one class compete: long runs, long flushes, several pairs,
    trips or quads, each in several orders."""
    rnd = np.random.default_rng(seed)
    out = []

    def fill(have, ok=lambda c: True):
        have = dict.fromkeys(have)
        for _ in range(4000):
            if len(have) >= n:
                break
            c = (int(rnd.integers(13)), int(rnd.integers(4)))
            if ok(c):
                have[c] = None
        return list(have)

    def orders(h):
        if len(h) < n or len(dict.fromkeys(h)) != len(h):
            return
        h = h[:n]
        s = sorted(h)
        for o in (s, s[::-1], [h[i] for i in rnd.permutation(n)], [h[i] for i in rnd.permutation(n)]):
            out.append(o)

    def suits(k):
        return [int(x) for x in rnd.permutation(4)[:k]]

    while len(out) < m:
        run = int(rnd.integers(6, min(n, 9) + 1)) if n > 6 else 6
        lo = int(rnd.integers(0, 14 - run)) if run < 13 else 0
        su = int(rnd.integers(4))
        ranks = [lo + i for i in range(run)]
        orders(fill([(r, su) for r in ranks]))                                     # straight flushes
        orders(fill([(12, su)] + [(r, su) for r in range(run - 1)]))               # the wheel and longer
        orders(fill([(r, int(rnd.integers(4))) for r in ranks]))                   # straights
        orders(fill([(int(r), su) for r in rnd.permutation(13)[:run]]))            # flushes
        rs = [int(r) for r in rnd.permutation(13)]
        orders(fill([(rs[0], s) for s in suits(3)] + [(rs[1], s) for s in suits(3)]))
        orders(fill([(rs[0], s) for s in suits(2)] + [(rs[1], s) for s in suits(2)] + [(rs[2], s) for s in suits(2)]))
        orders(fill([(rs[0], s) for s in suits(3)] + [(rs[1], s) for s in suits(2)] + [(rs[2], s) for s in suits(2)]))
        orders(fill([(rs[0], s) for s in range(4)] + [(r, su) for r in rs[1:3]]))
        orders(fill([(rs[0], s) for s in range(4)] + [(rs[1], s) for s in suits(3)]))
        if n >= 8:
            orders(fill([(rs[0], s) for s in range(4)] + [(rs[1], s) for s in range(4)]))
        orders(fill([(rs[0], s) for s in suits(2)], lambda c: c[0] != rs[0]))
        orders(fill([(rs[0], s) for s in suits(3)], lambda c: c[0] != rs[0]))
        su2 = (su + 1) % 4
        if n >= 9:
            a = int(rnd.integers(0, 9))
            orders(fill([(lo + i, su) for i in range(5)] + [(a + i, su2) for i in range(5)][:n - 5]))
    return np.array(out[:m])


def best_of(hands):
    """Class of the best five-card subset of each hand."""
    h = np.asarray(hands)
    n = h.shape[1]
    best = np.full(len(h), oracle.NCLASS)
    for ix in itertools.combinations(range(n), 5):
        ix = list(ix)
        best = np.minimum(best, oracle.hand_class(h[:, ix, 0], h[:, ix, 1]))
    return best
