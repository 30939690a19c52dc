"""What the checks share: abstract cards, evaluator tables, hand summaries and class domain."""
import itertools
import math
import time
import numpy as np
import oracle
from terms import *
from values import *
from prog import Prog, norm
from interp import Interp, Diverged, Unsolved


class Broken(Exception):
    """A rule is violated at a specific construct."""

    def __init__(self, where, what):
        super().__init__(what)
        self.where = where
        self.what = what


class Refs:
    """Helper to build arguments inside a state."""

    def __init__(self, I, st):
        self.I, self.st = I, st

    def ref(self, v):
        return Ptr(self.I.new_alloc(self.st, v))

    def slice(self, items):
        a = self.I.new_alloc(self.st, Arr(items))
        return Ptr(a, (), (usz(0), usz(len(items))))


class World:
    def __init__(self, prog, deadline=None):
        self.P = prog
        self.roots = {k.split('::')[-1]: v for k, v in prog.roots.items()}
        self.deadline = deadline
        self.cache = {}
        self.analysed = {}
        self.loops = {}
        self.events = []
        self.scenario = {}      # what the globals that can change hold before each call
        self.left = {}          # what they are seen to hold after a call
        self.tables = {}        # contents the analysis supplies for generated statics
        self.rank_ty = self.argty('card_new', 0)
        self.suit_ty = self.argty('card_new', 1)
        self.rank_names = [v['name'] for v in prog.types[self.rank_ty]['variants']]
        self.suit_names = [v['name'] for v in prog.types[self.suit_ty]['variants']]
        self.eval_ty = self.retty('eval_best')
        self.card_ty = self.retty('card_new')
        self.class_ty = self.retty('eval_class')

    # ---- signatures
    def inst(self, root):
        return self.P.insts[self.roots[root]]

    def argty(self, root, i):
        return self.inst(root)['body']['locals'][1 + i]

    def retty(self, root):
        return self.inst(root)['body']['locals'][0]

    def where(self, root):
        """The crate function a root enters, for messages."""
        body = self.inst(root)['body']
        for b in body['blocks']:
            t = b['term']
            if t['t'] == 'call' and 'const' in t['f'] and 'fn' in t['f']['const']:
                i = self.P.insts[t['f']['const']['fn']]
                if i['crate'] == 'poker':
                    return '%s (%s)' % (i['name'], i.get('span') or '')
        return self.inst(root)['name']

    # ---- running a root
    def run(self, root, build, hook=None, word_syms=None, seconds=None, on_lookup=None):
        """Abstract result of a root.  `build` maps Refs to the argument list."""
        I = Interp(self.P)
        I.score_hook = hook
        I.on_lookup = on_lookup
        I.tables = self.tables
        if word_syms is not None:
            I.word_syms = word_syms
        I.deadline = time.time() + (seconds or 240)
        st = State_()
        for k, t in self.scenario.items():
            I.held_state[k] = I.new_alloc(st, t)
        args = build(Refs(I, st)) if callable(build) else list(build)
        try:
            v = I.call(self.roots[root], args, st)
        except Diverged as e:
            e.events = I.events
            raise
        finally:
            for k, n in I.visited.items():
                self.analysed[k] = self.analysed.get(k, 0) + n
            self.loops.update(I.loops)
        for k, a in I.held_state.items():
            self.left.setdefault(k, []).append(st.mem.get(a))
        r = Result()
        r.value, r.state, r.I, r.root = v, st, I, root
        r.events = [e for e in I.events if not I.surely_false(e.guard)]
        r.effects = I.effects
        return r

    def cached(self, key, f):
        if key not in self.cache:
            try:
                self.cache[key] = (True, f())
            except (Unsupported, Diverged, Broken) as e:
                self.cache[key] = (False, e)
        ok, v = self.cache[key]
        if not ok:
            raise v
        return v

    # ---- ranks, suits, cards
    def rank_order(self):
        """Variant index of each rank of the oracle (Two..Ace)."""
        if sorted(self.rank_names) != sorted(oracle.RANKS):
            raise Broken('enum Rank', 'the rank variants are %s' % self.rank_names)
        return [self.rank_names.index(n) for n in oracle.RANKS]

    def suit_order(self):
        if sorted(self.suit_names) != sorted(oracle.SUITS):
            raise Broken('enum Suit', 'the suit variants are %s' % self.suit_names)
        return [self.suit_names.index(n) for n in oracle.SUITS]

    def rank(self, dim):
        return Enum(dimvar(dim, self.rank_order(), VIDX), {i: () for i in range(13)}, self.rank_ty)

    def suit(self, dim):
        return Enum(dimvar(dim, self.suit_order(), VIDX), {i: () for i in range(4)}, self.suit_ty)

    def _card(self):
        R, S = Dim('rank', 13), Dim('suit', 4)
        r = self.run('card_new', lambda h: [self.rank(R), self.suit(S)])
        r.value = vmap(r.value, lambda t: t if t.op in ('tab', 'or', 'const') or t.syms else force(t))
        return R, S, r

    def card_summary(self):
        return self.cached('card', self._card)

    def card(self, rd, sd):
        """The card with the rank of point rd and the suit of point sd (dims or (dims, index arrays) or ints)."""
        R, S, r = self.card_summary()

        def e(x, n):
            if isinstance(x, Dim):
                return (x, np.arange(n))
            return x
        return vrestrict(r.value, {R: e(rd, 13), S: e(sd, 4)})

    def free_card(self, i):
        return self.cached(('free', i), lambda: self._free(i))

    def _free(self, i):
        r, s = Dim('r%d' % i, 13), Dim('s%d' % i, 4)
        return r, s, self.card(r, s)

    # ---- evaluator
    def evaluator(self, root='ev_new'):
        return self.cached(('ev', root), lambda: self.run(root, []))

    # ---- five-card hands
    def _five(self):
        cs = [self.free_card(i) for i in range(5)]
        ev = self.evaluator().value
        return self.run('ev_slice', lambda h: [h.ref(ev), h.slice([c[2] for c in cs])])

    def five(self):
        return self.cached('five', self._five)

    def rep_cards(self, K):
        """Five cards of a representative hand of every class, over the class dimension K."""
        reps = oracle.REPS
        return [self.card((K, reps[:, i, 0]), (K, reps[:, i, 1])) for i in range(5)]

    def _classes(self):
        """The evaluation of every class, as a function of the class (strongest first)."""
        K = Dim('class', oracle.NCLASS)
        v = self.five().value
        env = {}
        for i in range(5):
            r, s, _ = self.free_card(i)
            env[r] = (K, oracle.REPS[:, i, 0])
            env[s] = (K, oracle.REPS[:, i, 1])
        v = vrestrict(v, env)
        bad = force(lnot(eq(v.disc, const(0, VIDX))))
        if bad is not FALSE:
            k = 0 if bad is TRUE else int(np.argmax(bad.data[1]))
            raise Broken(self.where('ev_slice'), 'the five-card hand %s is refused' % hand_text(oracle.REPS[k]))
        e = v.vs[0][0]
        return K, vmap(e, lambda t: force(t) if not t.syms else t)

    def classes(self):
        return self.cached('classes', self._classes)

    def eval_at(self, dim):
        """The evaluation of class = point of dim (size 7462)."""
        K, v = self.classes()
        return vrestrict(v, {K: (dim, np.arange(oracle.NCLASS))})


def State_():
    from interp import State
    return State()


class Result:
    pass


def hand_text(cards):
    return ' '.join(oracle.RANK_CHARS[int(r)] + oracle.SUIT_CHARS[oracle.SUITS[int(s)]] for r, s in cards)


# ------------------------------------------------------------------ comparing structured values
def columns(v, pre=(), act=()):
    """[(path, active path conditions, term)]: conditions are (path of discriminant, variant)."""
    if isinstance(v, Term):
        return [(pre, act, v)]
    if isinstance(v, Agg):
        out = []
        for i, x in enumerate(v.fields):
            out += columns(x, pre + (('f', i),), act)
        return out
    if isinstance(v, Enum):
        p = pre + (('d',),)
        out = [(p, act, v.disc)]
        for k in sorted(v.vs):
            for i, x in enumerate(v.vs[k]):
                out += columns(x, pre + (('vf', k, i),), act + ((p, k),))
        return out
    if isinstance(v, Arr):
        out = []
        for i, x in enumerate(v.items):
            out += columns(x, pre + (('a', i),), act)
        return out
    if isinstance(v, (Str, StrRef)):
        return [(pre + (('s',),), act, v.term)]
    if isinstance(v, Vec):
        return columns(v.content, pre + (('c',),), act)
    raise Unsupported('comparison of %r' % (v,))


# ------------------------------------------------------------------ the space of ordered hands
class HandSpace:
    """Exact evaluation of summaries over all ordered hands of five distinct cards.

    The terms of a five-card summary separate into parts over suits and parts over ranks; the suit
    parts are tabulated on the 4^5 suit tuples and the rest on the 13^5 rank tuples, for every
    combination of suit parts that occurs."""

    def __init__(self, w):
        self.w = w
        self.r = [w.free_card(i)[0] for i in range(5)]
        self.s = [w.free_card(i)[1] for i in range(5)]
        self.S = frozenset(self.s)
        self.R = frozenset(self.r)
        self.memo = {}
        self.suits = np.indices((4,) * 5).reshape(5, -1)
        self.flush = np.all(self.suits == self.suits[0], axis=0)

    def distinct(self, t):
        """Specialise a term to pairwise distinct cards."""
        if not t.args and t.op != 'tab':
            return t
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'tab':
            r = self._dtab(t)
        else:
            na = [self.distinct(a) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        self.memo[t.id] = r
        return r

    def _dtab(self, t):
        dims, arr = t.data
        pos = {}
        for ax, d in enumerate(dims):
            for i in range(5):
                if d is self.r[i]:
                    pos.setdefault(i, {})['r'] = ax
                elif d is self.s[i]:
                    pos.setdefault(i, {})['s'] = ax
        if len(pos) != 2 or any(set(p) != {'r', 's'} for p in pos.values()):
            return t
        (i, p), (j, q) = sorted(pos.items())
        a = np.transpose(arr, [p['r'], p['s'], q['r'], q['s']]).reshape(52, 52)
        m = ~np.eye(52, dtype=bool)
        vals = a[m]
        if np.all(vals == vals[0]):
            return const(vals[0].item(), t.sort)
        return t

    def atoms(self, t, out, seen):
        if t.id in seen:
            return
        seen.add(t.id)
        if not t.dims:
            return
        if t.dims <= self.S:
            out[t] = True
            return
        for a in t.args:
            self.atoms(a, out, seen)

    def groups(self, terms):
        terms = [self.distinct(t) for t in terms]
        at, seen = {}, set()
        for t in terms:
            if t.syms:
                raise Unsupported('summary over unknowns')
            self.atoms(t, at, seen)
        at = list(at)
        env = {d: self.suits[i] for i, d in enumerate(self.s)}
        cols = [self.flush.astype(np.int64)]
        vals = []
        for a in at:
            v = np.broadcast_to(evaluate(a, env), (1024,))
            vals.append(v)
            _, inv = np.unique(v, return_inverse=True)
            cols.append(inv.reshape(-1))
        key = np.stack(cols)
        _, first, inv = np.unique(key, axis=1, return_index=True, return_inverse=True)
        inv = inv.reshape(-1)
        if len(first) > 200:
            raise Unsupported('suits and ranks do not separate')
        for g in range(len(first)):
            members = np.nonzero(inv == g)[0]
            m = {}
            for a, v in zip(at, vals):
                x = v[first[g]]
                m[a] = const(x.item() if hasattr(x, 'item') else x, a.sort)
            memo = {}
            res = [subst(t, m, memo) for t in terms]
            for t in res:
                if t.dims - self.R:
                    raise Unsupported('suits and ranks do not separate')
            yield bool(self.flush[members[0]]), members, res

    def rank_grid(self):
        return grid([(d, np.arange(13)) for d in self.r])

    def feasible(self, members):
        """Mask over 13^5: rank tuples that form five distinct cards with some suit tuple of members,
        and the witness suit tuple index."""
        ranks = np.indices((13,) * 5, dtype=np.int8)
        st = self.suits[:, members]
        # pairwise suit equality patterns present among the members
        pats = {}
        for k in range(len(members)):
            p = tuple(st[i, k] == st[j, k] for i in range(5) for j in range(i + 1, 5))
            pats.setdefault(p, members[k])
        mask = np.zeros((13,) * 5, dtype=bool)
        wit = np.zeros((13,) * 5, dtype=np.int32)
        eqs = [ranks[i] == ranks[j] for i in range(5) for j in range(i + 1, 5)]
        for p, k in pats.items():
            bad = np.zeros((13,) * 5, dtype=bool)
            for e, same_suit in zip(eqs, p):
                if same_suit:
                    bad |= e
            ok = ~bad & ~mask
            wit[ok] = k
            mask |= ok
        return mask, wit

    def hand(self, idx, k):
        return [(int(idx[i]), int(self.suits[i, k])) for i in range(5)]

    def scan(self, terms):
        """Yield (mask of rank tuples, witness suits, oracle class, [value arrays])."""
        for fl, members, res in self.groups(terms):
            mask, wit = self.feasible(members)
            if not mask.any():
                continue
            env = self.rank_grid()
            memo = {}
            arrs = [np.broadcast_to(evaluate(t, env, memo), (13,) * 5) for t in res]
            yield mask, wit, oracle.TABLE[1 if fl else 0], arrs, len(members)


def five_lemma(w, v, template):
    """Every ordered five-card hand evaluates to the value of its class.

    v: value over the five free cards; template: (K, value over the class dimension).
    Returns (number of ordered hands covered, [mismatches (hand, class)])."""
    K, tv = template
    cv, ct = columns(v), columns(tv)
    if [c[0] for c in cv] != [c[0] for c in ct]:
        raise Unsupported('summaries of different shapes')
    hs = HandSpace(w)
    tarr = []
    for _, _, t in ct:
        f = force(t)
        tarr.append(np.full(oracle.NCLASS, f.data, dtype=dtype(f.sort)) if f.is_const else f.data[1])
    disc = {c[0]: a for c, a in zip(ct, tarr)}
    bad = []
    covered = 0
    for mask, wit, cls, arrs, nsuits in hs.scan([c[2] for c in cv]):
        sel = mask & (cls >= 0)
        if (mask & (cls < 0)).any():
            sel = mask & (cls >= 0)
        k = cls[sel]
        wrong = np.zeros(k.shape, dtype=bool)
        for (path, act, _), a, ta in zip(cv, arrs, tarr):
            live = np.ones(k.shape, dtype=bool)
            for p, var in act:
                live &= disc[p][k] == var
            wrong |= live & (a[sel] != ta[k])
        covered += int(sel.sum())
        if wrong.any():
            pts = np.argwhere(sel)[wrong]
            for ix in pts[:20]:
                ix = tuple(ix)
                bad.append((hs.hand(ix, wit[ix]), int(cls[ix])))
    return covered, bad
