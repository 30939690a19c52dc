"""The best-of rule for hands of six or more cards.

Inside the evaluation of n cards, every evaluation of five of them is replaced by an abstract
strength: a fresh dimension ranging over the 7462 classes, one per subset.  What remains is the code
that combines those evaluations; it is correct if the result is a selection tree whose every
selection keeps the stronger side, and whose leaves are exactly the five-card subsets."""
import itertools
import math
import numpy as np
import oracle
from terms import *
from values import *
from world import *
from interp import Interp


class ScoreHook:
    unroll = 1300

    def __init__(self, w, n):
        self.w = w
        self.n = n
        self.K, self.tv = w.classes()
        self.keys = {}
        for i in range(n):
            self.keys[vkey(w.free_card(i)[2])] = i
        self.dims = {}          # subset -> dimension
        self.templates = w.cache.setdefault('score templates', {})
        self.calls = 0
        self.busy = False

    def contains_eval(self, ty, depth=0):
        T = self.w.P.types[ty]
        if ty == self.w.eval_ty:
            return True
        if depth > 3:
            return False
        if T['k'] == 'adt' and T['crate'] != 'poker':
            return any(self.contains_eval(f['ty'], depth + 1) for v in T['variants'] for f in v['fields'])
        if T['k'] == 'adt' and self.inner(ty):
            return True
        if T['k'] == 'tuple':
            return any(self.contains_eval(t, depth + 1) for t in T['tys'])
        return False

    def inner(self, ty):
        e = self.w.P.types[self.w.eval_ty]
        return e['k'] == 'adt' and any(f['ty'] == ty for v in e['variants'] for f in v['fields'])

    def cards(self, I, st, v, ty, depth=0):
        """All card values reachable from an argument (None: cannot tell)."""
        T = self.w.P.types[ty]
        if ty == self.w.card_ty:
            return [v]
        k = T['k']
        if depth > 4:
            return []
        if k == 'ref':
            inner = self.w.P.types[T['ty']]
            if inner['k'] == 'slice' and inner['ty'] == self.w.card_ty:
                try:
                    return list(I.models.slice_elems(I, st, v))
                except Unsupported:
                    return None
            if inner['k'] in ('array',) or T['ty'] == self.w.card_ty or self.is_vec_of_cards(T['ty']):
                return self.cards(I, st, I.read_ptr(st, v), T['ty'], depth + 1)
            return []
        if k == 'array' and T['ty'] == self.w.card_ty:
            return list(v.items) if isinstance(v, Arr) else None
        if self.is_vec_of_cards(ty):
            c = v.content if isinstance(v, Vec) else None
            return list(c.items) if isinstance(c, Arr) else None
        if k in ('tuple', 'closure'):
            out = []
            for x, t in zip(v.fields, T['tys'] if k == 'tuple' else T['upvars']):
                c = self.cards(I, st, x, t, depth + 1)
                if c is None:
                    return None
                out += c
            return out
        return []

    def is_vec_of_cards(self, ty):
        T = self.w.P.types[ty]
        return T['k'] == 'adt' and norm(T['path']) in ('vec::Vec', 'boxed::Box') and T['args'] and (
            T['args'][0] == self.w.card_ty or (self.w.P.types[T['args'][0]]['k'] == 'slice' and self.w.P.types[T['args'][0]]['ty'] == self.w.card_ty))

    def intercept(self, I, inst, args, st):
        if self.busy or inst['closure'] or not I.stack or inst['kind'] != 'item':
            return None
        body = inst['body']
        if body is None or not self.contains_eval(body['locals'][0]):
            return None
        if len(args) != body['argc']:
            return None
        cs = []
        for i, a in enumerate(args):
            c = self.cards(I, st, a, body['locals'][1 + i])
            if c is None:
                return None
            cs += c
        if len(cs) != 5:
            return None
        sub = []
        for c in cs:
            i = self.keys.get(vkey(c))
            if i is None:
                return None
            sub.append(i)
        if len(set(sub)) != 5:
            return None
        t = self.template(I, inst, args, st, cs)
        if t is None:
            return None
        self.calls += 1
        key = frozenset(sub)
        d = self.dims.get(key)
        if d is None:
            d = self.dims[key] = Dim('score' + ''.join(str(i) for i in sorted(sub)), oracle.NCLASS)
        return vrestrict(t, {self.K: (d, np.arange(oracle.NCLASS))})

    def template(self, I, inst, args, st, cs):
        """The value of this function on five cards as a function of their class, if that is what it is."""
        key = (inst['id'],)
        if key in self.templates:
            return self.templates[key]
        self.templates[key] = None
        w = self.w
        self.busy = True
        saved, HOOK[0] = HOOK[0], None
        try:
            # the same call on the five reference cards
            ref = [w.free_card(i)[2] for i in range(5)]
            J = Interp(w.P)
            J.deadline, J.tables, J.held_state = I.deadline, I.tables, I.held_state
            s2 = st.fork()
            J.nalloc = I.nalloc + 1000000
            J.globals = I.globals
            s2.path = TRUE
            it = iter(ref)
            new = [self.rewrite(I, s2, a, inst['body']['locals'][1 + i], it) for i, a in enumerate(args)]
            v = J.call(inst['id'], new, s2)
            for k, n in J.visited.items():
                w.analysed[k] = w.analysed.get(k, 0) + n
            env = {}
            for i in range(5):
                r, s, _ = w.free_card(i)
                env[r] = (self.K, oracle.REPS[:, i, 0])
                env[s] = (self.K, oracle.REPS[:, i, 1])
            tv = vmap(vrestrict(v, env), lambda t: force(t) if not t.syms else t)
            hs_bad = five_lemma(w, v, (self.K, tv))[1]
            if not hs_bad:
                evs = [e for e in J.events if not J.surely_false(e.guard)]
                if evs:
                    hs = HandSpace(w)
                    for mask, wit, _, arrs, _ in hs.scan([e.guard for e in evs]):
                        for e, a in zip(evs, arrs):
                            hit = np.argwhere(mask & a)
                            if len(hit):
                                ix = tuple(hit[0])
                                w.cache.setdefault('template events', []).append((e, hs.hand(ix, wit[ix])))
                self.templates[key] = tv
        except (Unsupported, Diverged):
            pass
        finally:
            self.busy = False
            HOOK[0] = saved
        return self.templates[key]

    def rewrite(self, I, st, v, ty, it):
        T = self.w.P.types[ty]
        if ty == self.w.card_ty:
            return next(it)
        if T['k'] == 'ref':
            inner = self.w.P.types[T['ty']]
            if inner['k'] == 'slice' and inner['ty'] == self.w.card_ty:
                items = [next(it) for _ in range(v.meta[1].data)]
                I.nalloc += 1
                st.mem[I.nalloc] = Arr(items)
                return Ptr(I.nalloc, (), (usz(0), usz(len(items))))
            if inner['k'] == 'array' and inner['ty'] == self.w.card_ty or T['ty'] == self.w.card_ty or self.is_vec_of_cards(T['ty']):
                x = self.rewrite(I, st, I.read_ptr(st, v), T['ty'], it)
                I.nalloc += 1
                st.mem[I.nalloc] = x
                return Ptr(I.nalloc)
            return v
        if T['k'] == 'array' and T['ty'] == self.w.card_ty:
            return Arr([next(it) for _ in v.items])
        if self.is_vec_of_cards(ty):
            return Vec(Arr([next(it) for _ in v.content.items]))
        if T['k'] in ('tuple', 'closure'):
            return Agg([self.rewrite(I, st, x, t, it) for x, t in zip(v.fields, T['tys'] if T['k'] == 'tuple' else T['upvars'])], v.ty)
        return v


def vkey(v):
    return tuple(t.id for _, _, t in columns(v))


class Selections:
    """Names every choice between two evaluations, then proves that each keeps the stronger."""

    def __init__(self, w, hook):
        self.w = w
        self.hook = hook
        self.K, self.tv = w.classes()
        self.memo = {}
        self.named = {}         # columns of an evaluation -> its dimension or class
        self.sel = {}           # dimension -> (condition, left, right)
        self.index = {}
        self.inner_ty = self.tv.fields[0].ty if isinstance(self.tv, Agg) and len(self.tv.fields) == 1 and \
            isinstance(self.tv.fields[0], (Agg, Enum)) else None
        self.refcols = columns(self.tv)
        self.paths = [c[0] for c in self.refcols]
        self.table = []
        for _, act, t in self.refcols:
            f = force(t)
            self.table.append((act, np.full(oracle.NCLASS, f.data) if f.is_const else f.data[1]))
        self.disc = {p: a for p, (_, a) in zip(self.paths, self.table)}
        self.solved = {}
        self.checked = 0

    def value(self, d):
        return vrestrict(self.tv, {self.K: (d, np.arange(oracle.NCLASS))})

    def key(self, v):
        try:
            cs = {c[0]: c[2] for c in columns(v)}
        except Unsupported:
            return None
        if not set(cs) <= set(self.paths):
            return None
        return tuple(cs[p].id if p in cs else None for p in self.paths), cs

    def name(self, v):
        """('dim', d) | ('class', k) | None"""
        kc = self.key(v)
        if kc is None:
            return None
        key, cs = kc
        r = self.named.get(key)
        if r is not None:
            return r
        dims = set()
        for t in cs.values():
            dims |= t.dims
            if t.syms:
                return None
        if len(dims) == 1:
            d = next(iter(dims))
            if d.size == oracle.NCLASS:
                ref = self.key(self.value(d))[0]
                if all(x is None or x == y for x, y in zip(key, ref)):
                    r = ('dim', d)
        elif not dims and all(t.is_const for t in cs.values()):
            ok = np.ones(oracle.NCLASS, dtype=bool)
            for p, (act, a) in zip(self.paths, self.table):
                live = np.ones(oracle.NCLASS, dtype=bool)
                for q, var in act:
                    live &= self.disc[q] == var
                if p in cs:
                    ok &= ~live | (a == cs[p].data)
                else:
                    ok &= ~live
            k = np.nonzero(ok)[0]
            if len(k):
                r = ('class', int(k[0]))
        if r is not None:
            self.named[key] = r
        return r

    def choose(self, c, a, b):
        """Called for every join of two values."""
        if a.ty == self.w.eval_ty or (a.ty is None and b.ty == self.w.eval_ty):
            wrap = lambda v: v
        elif self.inner_ty is not None and a.ty == self.inner_ty and isinstance(a, (Enum, Agg)):
            wrap = lambda v: Agg([v], self.w.eval_ty)
        else:
            return None
        x, y = self.name(wrap(a)), self.name(wrap(b))
        if x is None or y is None:
            return None
        if x == y:
            return a
        k = (c.id, x, y)
        d = self.index.get(k)
        if d is None:
            d = self.index[k] = Dim('choice', oracle.NCLASS)
            self.sel[d] = (c, x, y)
        v = self.value(d)
        return v if a.ty != self.inner_ty or a.ty == self.w.eval_ty else v.fields[0]

    # ---- proof
    def solve(self, n):
        """Name -> (set of five-card subsets it is the strongest of, weakest constant class)."""
        if n[0] == 'class':
            return frozenset(), n[1]
        d = n[1]
        r = self.solved.get(d)
        if r is not None:
            return r
        if d in self.sel:
            c, x, y = self.sel[d]
            sx, lx = self.solve(x)
            sy, ly = self.solve(y)
            self.check(c, x, y, sx, sy)
            lows = [l for l in (lx, ly) if l is not None]
            r = sx | sy, (min(lows) if lows else None)
        else:
            r = None
            for sub, e in self.hook.dims.items():
                if e is d:
                    r = frozenset([sub]), None
            if r is None:
                raise Unsupported('an evaluation of unknown origin')
        self.solved[d] = r
        return r

    def check(self, c, x, y, sx, sy):
        self.checked += 1
        if self.early_exit(c, x, sx, sy) or self.early_exit(lnot(c), y, sy, sx):
            return
        dims = set(n[1] for n in (x, y) if n[0] == 'dim')
        if not (c.dims <= dims) or c.syms:
            raise Unsupported('a choice that depends on more than the two evaluations compared')
        w = self.refute(c, x, y)
        if w is not None:
            raise Broken(None, 'the combination keeps the weaker of two five-card evaluations: %s over %s' % w)

    def early_exit(self, cond, x, sx, sy):
        """cond implies x is already the strongest hand, and the other side considers at least as much."""
        if not sx <= sy or x[0] != 'dim':
            return False
        for c in (cond.args if cond.op == 'and' else [cond]):
            if c.dims and c.dims <= {x[1]} and not c.syms:
                v = evaluate(c, {x[1]: np.arange(oracle.NCLASS)})
                k = np.nonzero(v)[0]
                if len(k) == 0 or (len(k) == 1 and k[0] == 0):
                    return True
        return False

    def refute(self, c, x, y):
        """Find classes (a, b) where the condition keeps the weaker side."""
        n = oracle.NCLASS
        kx = x[1] if x[0] == 'class' else None
        ky = y[1] if y[0] == 'class' else None
        a, b = Dim('a', n), Dim('b', n)
        env = {}
        if kx is None:
            env[x[1]] = (a, np.arange(n))
        if ky is None:
            env[y[1]] = (b, np.arange(n))
        key = ('cond', kx, ky, self.shape(c, x, y))
        if key in self.memo:
            return self.memo[key]
        out = None
        av = np.arange(n) if kx is None else np.array([kx])
        bv = np.arange(n) if ky is None else np.array([ky])
        for i in range(0, len(av), 512):
            A = av[i:i + 512].reshape(-1, 1)
            B = bv.reshape(1, -1)
            e = {}
            if kx is None:
                e[x[1]] = A
            if ky is None:
                e[y[1]] = B
            r = np.broadcast_to(evaluate(c, e), (A.shape[0], B.shape[1]))
            wrong = (r & (A > B)) | (~r & (A < B))      # class 0 is the strongest
            if wrong.any():
                p = np.argwhere(wrong)[0]
                ka, kb = int(A[p[0], 0]), int(B[0, p[1]])
                out = (describe(ka), describe(kb)) if r[p[0], p[1]] else (describe(kb), describe(ka))
                break
        self.memo[key] = out
        return out

    def shape(self, c, x, y):
        """The condition with its two operands renamed, as a cache key."""
        if not hasattr(self, 'pa'):
            self.pa, self.pb = Dim('a', oracle.NCLASS), Dim('b', oracle.NCLASS)
        env = {}
        for n, d in ((x, self.pa), (y, self.pb)):
            if n[0] == 'dim':
                env[n[1]] = (d, np.arange(oracle.NCLASS))
        return restrict(c, env).id


def describe(k):
    _, cat, rs, ms, fl = oracle.CLASSES[k]
    return hand_text(oracle.REPS[k])


class KnownHook(ScoreHook):
    """Evaluations of five given cards by the summary the symbolic analysis found for the same function."""
    unroll = 30000

    def __init__(self, w):
        self.w = w
        self.K, self.tv = w.classes()
        self.templates = w.cache.setdefault('score templates', {})
        self.busy = False
        self.calls = 0
        self.keys = {vkey(w.card(r, s)): (r, s) for r in range(13) for s in range(4)}
        self.ids = {}
        self.values = {}

    def intercept(self, I, inst, args, st):
        t = self.templates.get((inst['id'],))
        body = inst['body']
        if t is None or body is None or len(args) != body['argc']:
            return None
        cs = []
        for i, a in enumerate(args):
            c = self.cards(I, st, a, body['locals'][1 + i])
            if c is None:
                return None
            cs += c
        if len(cs) != 5:
            return None
        hand = []
        for c in cs:
            k = self.ids.get(id(c))
            if k is None:
                k = self.ids[id(c)] = (self.keys.get(vkey(c)), c)
            if k[0] is None:
                return None
            hand.append(k[0])
        if len(set(hand)) != 5:
            return None
        self.calls += 1
        k = int(oracle.hand_class(np.array([r for r, _ in hand]), np.array([s for _, s in hand])))
        v = self.values.get((inst['id'], k))
        if v is None:
            v = self.values[(inst['id'], k)] = vrestrict(t, {self.K: k})
        return v


def six_plus(w, n, entry='ev_slice'):
    """Analyse the evaluation of n free cards with five-card evaluations abstracted."""
    hook = ScoreHook(w, n)
    sel = Selections(w, hook)
    cs = [w.free_card(i)[2] for i in range(n)]
    ev = w.evaluator().value
    HOOK[0] = sel.choose
    try:
        r = w.run(entry, lambda h: [h.ref(ev), h.slice(cs)], hook=hook)
    finally:
        HOOK[0] = None
    return hook, sel, r
