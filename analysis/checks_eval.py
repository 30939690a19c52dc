"""C10-C18, C22, C25: evaluation."""
import itertools
import math
import time
import numpy as np
import oracle
import score
from core import *
from evals import *

ALL = 'all 311,875,200 ordered hands (%d rank and suit cells)'


def strict(f):
    """Trouble with the five-card evaluation itself belongs to other rules."""
    try:
        return f()
    except Broken as e:
        raise Unsupported('five-card evaluation: %s' % e.what)


def class_name(c):
    return 'nothing' if c is None else oracle.class_text(*c)


def want_class(k):
    return oracle.CLASSES[k][1], oracle.CLASSES[k][2]


# ------------------------------------------------------------------ C10
_PART = {}


def partitions(n):
    """Restricted growth strings of length n, as an array (Bell(n), n)."""
    r = _PART.get(n)
    if r is None:
        rows = [()]
        for i in range(n):
            rows = [p + (k,) for p in rows for k in range((max(p) if p else -1) + 2)]
        r = _PART[n] = np.array(rows, dtype=np.int8).reshape(len(rows), n)
    return r


class Equalities:
    """Conditions that see n cards only through which of them are equal."""

    def __init__(self, w, n):
        self.w, self.n = w, n
        self.parts = partitions(n)
        self.dim = Dim('which cards are equal', len(self.parts), label=self.label)
        self.pos = {}
        for i in range(n):
            r, s, _ = w.free_card(i)
            self.pos[r] = (i, 'r')
            self.pos[s] = (i, 's')
        self.memo = {}

    def label(self, k):
        g = {}
        for i, x in enumerate(self.parts[k]):
            g.setdefault(int(x), []).append(i)
        same = [v for v in g.values() if len(v) > 1]
        return ' '.join('equal cards at ' + ','.join(map(str, v)) for v in same) or 'all different'

    def leaf(self, t):
        dims, arr = t.data
        ax = {}
        for k, d in enumerate(dims):
            if d not in self.pos:
                return t
            i, what = self.pos[d]
            ax.setdefault(i, {})[what] = k
        if len(ax) != 2 or any(set(p) != {'r', 's'} for p in ax.values()):
            raise Unsupported('a condition on single cards')
        (i, p), (j, q) = sorted(ax.items())
        a = np.transpose(arr, [p['r'], p['s'], q['r'], q['s']]).reshape(52, 52)
        dg, off = a[np.eye(52, dtype=bool)], a[~np.eye(52, dtype=bool)]
        if not (np.all(dg == dg[0]) and np.all(off == off[0])):
            raise Unsupported('a condition on two cards that is not equality')
        e = self.parts[:, i] == self.parts[:, j]
        return tab([self.dim], np.where(e, dg[0], off[0]), t.sort)

    def go(self, t):
        r = self.memo.get(t.id)
        if r is None:
            if t.op == 'tab':
                r = self.leaf(t)
            elif not t.args:
                r = t
            else:
                na = [self.go(a) for a in t.args]
                r = rebuild(t, na)
            self.memo[t.id] = r
        return r

    def table(self, t):
        t = self.go(t)
        if t.syms or t.dims - {self.dim}:
            raise Unsupported('a condition on more than which cards are equal')
        return np.broadcast_to(evaluate(t, {self.dim: np.arange(len(self.parts))}), (len(self.parts),))


def probe_hands(n, seed=1):
    """Hands of n cards, with and without repeats, that cover every pair of cards at every pair of places."""
    rnd = np.random.default_rng(seed)
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            for a in range(52):
                for b in range(52):
                    h = [-1] * n
                    h[i], h[j] = a, b
                    k = int(rnd.integers(52))
                    for p in range(n):
                        if h[p] < 0:
                            while k in h:
                                k = (k + 1) % 52
                            h[p] = k
                    out.append(h)
    a = np.array(out)
    return np.stack([a // 4, a % 4], axis=2)


def card_env(w, hands):
    env = {}
    for i in range(hands.shape[1]):
        r, s, _ = w.free_card(i)
        env[r], env[s] = hands[:, i, 0], hands[:, i, 1]
    return env


def slice_result(w, n):
    """The evaluation of a slice of n arbitrary cards."""
    def f():
        cs = [w.free_card(i)[2] for i in range(n)]
        if n == 5:
            return run_five(w)
        ev = w.evaluator().value
        if n < 5:
            return w.run('ev_slice', lambda h: [h.ref(ev), h.slice(cs)])
        return six_plus(w, n)[2]
    return w.cached(('slice', n), f)


def C10(x):
    w = x.w
    where = w.where('ev_slice')
    ty = w.retty('ev_slice')
    ok, er = ok_err(w, 'ev_slice')
    ety = w.P.types[ty]['variants'][er]['fields'][0]['ty']
    names = w.P.types[ety]['variants']

    def verdict(n):
        def f():
            q = strict(lambda: slice_result(w, n)) if n > 5 else slice_result(w, n)
            U, S = vnum(w, ety, 'CardsNotUnique'), vnum(w, ety, 'InvalidHandSize')
            v = q.value
            err = v.vs[er][0] if er in v.vs else None
            terms = [v.disc] + ([err.disc] if err is not None else [])
            E = Equalities(w, n)

            def code(disc, ed):
                # 0 accepted, 1 not unique, 2 size
                return np.where(disc == ok, 0, np.where(ed == U, 1, np.where(ed == S, 2, 3)))

            def judge(got, dup, show):
                want = np.where(dup, 1, 2 if n < 5 else 0)
                bad = np.nonzero(got != want)[0]
                if len(bad):
                    k = int(bad[0])
                    t = ['an accepted hand', 'the not-unique error', 'the hand-size error', 'another error']
                    raise Broken(where, '%d cards give %s instead of %s [%s]' % (n, t[int(got[k])], t[int(want[k])], show(k)))
                return len(got)
            try:
                tabs = [E.table(t) for t in terms]
                dup = E.parts.max(axis=1) < n - 1 if n else np.zeros(1, dtype=bool)
                if err is None:
                    tabs.append(np.full(len(dup), -1))
                m = judge(code(*tabs), dup, E.label)
                return '%d patterns of equal cards among %d cards, each for all cards' % (m, n)
            except Unsupported as e:
                exact = e
            # the condition is not about equality alone: look at it on given hands
            if n < 2:
                raise exact
            hands = probe_hands(n)
            ids = hands[:, :, 0] * 4 + hands[:, :, 1]
            srt = np.sort(ids, axis=1)
            dup = (srt[:, 1:] == srt[:, :-1]).any(axis=1)
            env = card_env(w, hands)
            memo = {}
            tabs = [np.broadcast_to(evaluate(t, env, memo), (len(hands),)) for t in terms]
            if err is None:
                tabs.append(np.full(len(hands), -1))
            judge(code(*tabs), dup, lambda k: hand_text(hands[k]))
            raise exact
        return f

    def payload(n):
        def f():
            q = strict(lambda: slice_result(w, n)) if n > 5 else slice_result(w, n)
            v = q.value
            if er not in v.vs:
                return 'no errors'
            err = v.vs[er][0]
            refused = eq(v.disc, const(er, VIDX))
            cs = [w.free_card(i)[2] for i in range(n)]
            done = []
            for k, fs in err.vs.items():
                g = land(refused, eq(err.disc, const(k, VIDX)))
                if g is FALSE:
                    continue
                if names[k]['name'] == 'CardsNotUnique':
                    got = content(fs[0])
                    if len(got) != n:
                        raise Broken(where, 'the not-unique error of %d cards carries %d cards' % (n, len(got)))
                    for i, (a, b) in enumerate(zip(got, cs)):
                        d = differ(a, b)
                        if d is FALSE:
                            continue
                        hands = probe_hands(n)
                        t = land(g, d)
                        if not t.syms and t.dims <= set(card_env(w, hands)):
                            hit = np.nonzero(np.broadcast_to(evaluate(t, card_env(w, hands)), (len(hands),)))[0]
                            if len(hit):
                                raise Broken(where, 'card %d of the not-unique error is not the card given [%s]' % (i, hand_text(hands[hit[0]])))
                        never(t, where, 'card %d of the not-unique error is not the card given' % i, w)
                    done.append('%d cards' % n)
                elif names[k]['name'] == 'InvalidHandSize':
                    d = lnot(eq(fs[0], usz(n)))
                    if d is not FALSE:
                        if fs[0].is_const:
                            raise Broken(where, 'the hand-size error of %d cards carries %s' % (n, fs[0].data))
                        never(land(g, d), where, 'the hand-size error of %d cards carries another number' % n, w)
                    done.append('size %d' % n)
            return ', '.join(done) or 'none'
        return f
    for n in range(0, 12 if x.thorough else 10):
        x.ob('verdict for %d cards' % n, 'duplicates are refused as such, else fewer than five as such, else accepted', verdict(n))
        x.ob('error contents for %d cards' % n, 'the not-unique error carries the cards in order, the hand-size error their number', payload(n))

    def given(n, hands, m, dup):
        # hands (one per row of card numbers) as one dimension
        D = Dim('hand', len(hands), label=lambda i: hand_text([(c // 4, c % 4) for c in hands[i]]))
        cs = [w.card((D, hands[:, i] // 4), (D, hands[:, i] % 4)) for i in range(n)]
        ev = w.evaluator().value
        q = w.run('ev_slice', lambda h: [h.ref(ev), h.slice(cs)], seconds=120)
        v = q.value
        never(lnot(eq(v.disc, const(er if dup else ok, VIDX))), where,
              '%d cards, %s' % (n, 'one of them given twice, are not refused' if dup else 'all different, are not accepted'), w)
        if dup:
            err = v.vs[er][0]
            U = vnum(w, ety, 'CardsNotUnique')
            never(lnot(eq(err.disc, const(U, VIDX))), where, '%d cards with a repeated one are refused for another reason' % n, w)
            got = content(err.vs[U][0])
            if len(got) != n:
                raise Broken(where, 'the not-unique error of %d cards carries %d cards' % (n, len(got)))
            for i, (a, b) in enumerate(zip(got, cs)):
                never(differ(a, b), where, 'card %d of the not-unique error is not the card given' % i, w)
        return '%d hands of %d cards' % (len(hands), n)

    rejecting = {}

    def looked_up(cs):
        """Evaluating these known cards gets as far as the tables, with no refusal as not unique left to come."""
        U = vnum(w, ety, 'CardsNotUnique')
        if 'set' not in rejecting:
            import checks_sys
            G = checks_sys.CallGraph(w)

            def makes(o):
                if isinstance(o, dict):
                    return o.get('k') == 'adt' and o.get('ty') == ety and o.get('variant') == U or any(makes(v) for v in o.values())
                return isinstance(o, list) and any(makes(v) for v in o)
            own = {i['id'] for i in w.P.insts if i['body'] is not None and makes(i['body']['blocks']) or i['name'].endswith('::CardsNotUnique')}
            callers = set(own)
            work = list(own)
            back = {}
            for i in w.P.insts:
                for j in G.edges(i['id']):
                    back.setdefault(j, []).append(i['id'])
            while work:
                for i in back.get(work.pop(), ()):
                    if i not in callers:
                        callers.add(i)
                        work.append(i)
            rejecting.update(set=callers, makes=makes, closures=any(w.P.insts[i]['closure'] for i in callers), own=own)
        if rejecting['closures']:
            return False

        def has(v, depth=0):
            if isinstance(v, Enum):
                return v.ty == ety and U in v.vs or any(has(f, depth + 1) for fs in v.vs.values() for f in fs)
            if isinstance(v, Agg):
                return any(has(f, depth + 1) for f in v.fields)
            return False

        class Reached(Exception):
            pass
        out = []

        def on(I, st):
            if not w_feasible(st.path) or any(has(v) for v in st.mem.values()):
                out.append(False)
                raise Reached()
            for fr in I.frames:
                seen, work = set(), list(fr.cfg.succ[fr.bb])
                while work:
                    b = work.pop()
                    if b in seen:
                        continue
                    seen.add(b)
                    work += fr.cfg.succ[b]
                for b in seen:
                    B = fr.body['blocks'][b]
                    if rejecting['makes'](B) or any(j in rejecting['set'] for j in fns_of(B)):
                        out.append(False)
                        raise Reached()
            out.append(I.frames[-1].inst['name'])
            raise Reached()
        ev = w.evaluator().value
        try:
            w.run('ev_slice', lambda h: [h.ref(ev), h.slice(cs)], seconds=20, on_lookup=on)
        except (Reached, Unsupported, Diverged):
            pass
        return out[0] if out else False

    def w_feasible(c):
        if c.is_const:
            return bool(c.data)
        try:
            return not c.syms and find(c) is not None
        except Unsupported:
            return False

    def fns_of(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == 'fn' and isinstance(v, int):
                    yield v
                else:
                    yield from fns_of(v)
        elif isinstance(o, list):
            for v in o:
                yield from fns_of(v)

    def repeated(n):
        def f():
            rnd = np.random.default_rng(n)
            if n > 9:
                for i, j in ((0, n - 1), (0, 1), (n - 2, n - 1)):
                    h = [int(c) for c in rnd.permutation(52)[:min(n, 52)]]
                    while len(h) < n:
                        h.append(int(rnd.integers(52)))
                    h[j] = h[i]
                    at = looked_up([w.card(c // 4, c % 4) for c in h])
                    if at:
                        raise Broken(where, '%d cards, one of them given twice, are not refused but looked up in %s' % (n, at))
            pairs = list(itertools.combinations(range(n), 2))
            if len(pairs) > 150:
                keep = [p for p in pairs if p[1] == p[0] + 1 or p == (0, n - 1)]
                pairs = keep + [pairs[int(k)] for k in rnd.permutation(len(pairs))[:100]]
            hands = []
            for i, j in pairs:
                h = [int(c) for c in rnd.permutation(52)[:min(n, 52)]]
                while len(h) < n:
                    h.append(int(rnd.integers(52)))
                h[j] = h[i]
                hands.append(h)
            return given(n, np.array(hands), n, True)
        return f

    def distinct(n):
        def f():
            rnd = np.random.default_rng(n)
            hands = [[int(c) for c in rnd.permutation(52)[:n]] for _ in range(12)]
            # whole ranks and whole suits together
            for k in (0, 52 - n, 20):
                hands.append([c for c in range(k, k + n)] if k + n <= 52 else [c for c in range(52 - n, 52)])
                hands.append(sorted(range(52), key=lambda c: (c % 4, c // 4))[min(k, 52 - n):][:n])
            return given(n, np.array(hands), n, False)
        return f
    near = [c for c in constants(x) if 10 <= c <= 52]
    for n in sorted(set([10, 11, 13, 17, 26, 52, 53, 60] + near)):
        x.ob('a repeated card among %d' % n, 'refused with all the cards in their order, wherever the two places are', repeated(n))
    for n in [10] + ([11, 12] if x.thorough else []):
        x.ob('%d different cards' % n, 'accepted', distinct(n))

    def entry(root, ev):
        def f():
            if root not in w.roots:
                raise Missing(root)
            q = run_five(w, ev, root)
            d0, d1 = q.value.disc, slice_result(w, 5).value.disc
            t = lnot(eq(d0, d1))
            if t is not FALSE:
                hands = probe_hands(5)
                hit = np.nonzero(np.broadcast_to(evaluate(t, card_env(w, hands)), (len(hands),)))[0]
                if len(hit):
                    raise Broken(w.where(root), 'the verdict on five cards differs from that on a slice [%s]' % hand_text(hands[hit[0]]))
                never(t, w.where(root), 'the verdict on five cards differs from that on a slice', w)
            return 'all sequences of five cards'
        return f
    for root in ('ev_vec', 'ev_arr5', 'ev_box'):
        x.ob('%s of five' % root, 'every kind of container gets the verdict of the slice of its cards', entry(root, 'ev_new'))

    def total():
        ft = five_table(w)
        if ft.events:
            e, h = ft.events[0]
            raise Broken(e.where(), 'evaluating five distinct cards does not succeed [%s]' % hand_text(h))
        if ft.refused is not None:
            raise Broken(ft.where, 'five distinct cards are refused [%s]' % hand_text(ft.refused))
        return ALL % ft.hands
    x.ob('five distinct cards evaluate', 'every hand of five distinct cards yields an evaluation', total)


# ------------------------------------------------------------------ C11
def C11(x):
    w = x.w
    ft_ = lambda: five_table(w)

    def classes(pick, text):
        def f():
            ft, d = ft_(), domain(w)
            cc = d.class_cols()
            if ft.refused is not None:
                raise Broken(ft.where, 'the hand %s is refused' % hand_text(ft.refused))
            if ft.events:
                raise Broken(ft.events[0][0].where(), 'the hand %s has no evaluation' % hand_text(ft.events[0][1]))
            for (i, k), h in sorted(ft.of_class.items(), key=lambda z: z[0][1]):
                got, want = cc[i], want_class(k)
                if pick(got) != pick(want):
                    raise Broken(ft.where, 'the hand %s is %s, reported as %s' % (hand_text(h), class_name(want), class_name(got)))
            return ALL % ft.hands
        return f
    x.ob('category', 'the class of the evaluation of every five-card hand has the category the rules give', classes(lambda c: c and c[0], 'category'))
    x.ob('ranks', 'the ranks inside the class are those the rules give', classes(lambda c: c, 'ranks'))

    def entry(root):
        def f():
            need_root(w, root)
            same_table(w, five_table(w), five_table(w, 'ev_new', root), 'class')
            return ALL % five_table(w, 'ev_new', root).hands
        return f
    for root in ('ev_vec', 'ev_arr5', 'ev_box'):
        x.ob(root, 'the container makes no difference to the class', entry(root))


def need_root(w, root):
    if root not in w.roots:
        raise Missing(root)


def indistinct(w, i, j):
    """Whether two evaluations cannot be told apart (None: cannot tell)."""
    if i == j:
        return None
    if i < 0 or j < 0:
        return 'one of the evaluations fails'
    d = domain(w)
    if max(i, j) >= d.n:
        w.cache.pop('domain')
        for k in [k for k in w.cache if isinstance(k, tuple) and k[0] in ('pair', 'one') or k in ('eval cmp', 'class cols', 'strength')]:
            w.cache.pop(k)
        d = domain(w)
    A, B = d.dim('a'), d.dim('b')
    q = d.pair('eval_equal', byref=False)
    if not bool(evaluate(q.value, {A: np.array([i]), B: np.array([j])})[0]):
        return 'they are not equal'
    cc = d.class_cols()
    if cc[i] != cc[j]:
        return 'their classes are %s and %s' % (class_name(cc[i]), class_name(cc[j]))
    q = d.one('eval_display', byref=True)
    t = d.col(q.value.term)
    if t[i] != t[j]:
        return 'they display as %r and %r' % (t[i], t[j])
    return None


def same_table(w, a, b, what, aspect=None):
    """Two five-card tables evaluate every hand alike."""
    seen = {}
    for g in range(1024):
        x, y = int(a.suit_group[g]), int(b.suit_group[g])
        if x < 0 or y < 0 or (x, y) in seen:
            continue
        seen[x, y] = True
        members = np.array([m for m in range(1024) if a.suit_group[m] == x and b.suit_group[m] == y])
        mask, wit = a.hs.feasible(members)
        p, q = a.groups[x][3], b.groups[y][3]
        bad = mask & (p != q)
        if bad.any():
            pairs = np.stack([p[bad], q[bad]], axis=1)
            pts = np.argwhere(bad)
            _, first = np.unique(pairs, axis=0, return_index=True)
            for k in first[:200]:
                why = indistinct(w, int(pairs[k][0]), int(pairs[k][1]))
                if why:
                    raise Broken(b.where, 'the hand %s is evaluated differently (%s): %s' % (hand_text(a.hs.hand(pts[k], wit[tuple(pts[k])])), what, why))


# ------------------------------------------------------------------ C12
def C12(x):
    w = x.w

    def instances():
        ft = five_table(w)
        if ft.refused is not None or ft.events:
            raise Unsupported('some hands have no evaluation')
        ks = sorted(ft.of_class, key=lambda z: (z[1], z[0]))
        if len(ks) > 30000:
            raise Unsupported('%d different evaluations' % len(ks))
        return ft, np.array([k[0] for k in ks]), np.array([k[1] for k in ks]), [ft.of_class[k] for k in ks]

    def compare(name, tab_, want):
        """tab_: (n, n) table over evaluations; want: function of the class differences."""
        def f():
            ft, ids, cls, hands = instances()
            t = tab_()
            for i in range(0, len(ids), 512):
                sub = slice(i, i + 512)
                got = t[np.ix_(ids[sub], ids)]
                sgn = np.sign(cls[None, :] - cls[sub][:, None]).astype(np.int8)      # 1: the row is stronger
                bad = got != want(sgn)
                if bad.any():
                    # the closest pair of classes makes the clearest message
                    p = np.argwhere(bad)
                    gap = np.abs(cls[p[:, 1]] - cls[sub][p[:, 0]])
                    a, b = p[int(np.argmin(gap))]
                    s = int(sgn[a, b])
                    raise Broken(ft.where, '%s: %s %s %s, but the code says %r' % (
                        name, hand_text(hands[i + a]), {1: 'beats', 0: 'ties with', -1: 'loses to'}[s], hand_text(hands[b]), got[a, b].item()))
            return '%d x %d evaluations standing for %s' % (len(ids), len(ids), ALL % ft.hands)
        return f
    d = lambda: domain(w)

    def meth(root, byref=False):
        return lambda: d().table2(d().pair(root, byref).value, dt=bool)

    def partial():
        q = d().pair('eval_partial_cmp')
        some = vnum(w, w.retty('eval_partial_cmp'), 'Some')
        t = d().table2(eq(q.value.disc, const(some, VIDX)), dt=bool)
        m = d().ordmap(q.value.vs[some][0].ty)
        o = d().table2(q.value.vs[some][0].disc, lambda a: m[a])
        return np.where(t, o, 9)
    x.ob('total comparison', 'cmp of any two five-card evaluations is the order of poker', compare('cmp', lambda: d().cmp(), lambda s: s))
    x.ob('partial comparison', 'partial_cmp likewise', compare('partial_cmp', partial, lambda s: s))
    x.ob('is_better_than', 'true exactly when the hand beats the other', compare('is_better_than', meth('eval_better'), lambda s: s == 1))
    x.ob('is_worse_than', 'true exactly when the hand loses to the other', compare('is_worse_than', meth('eval_worse'), lambda s: s == -1))
    x.ob('is_equal_to', 'true exactly when the hands tie', compare('is_equal_to', meth('eval_equal'), lambda s: s == 0))
    for root, g in (('eval_eq', lambda s: s == 0), ('eval_ne', lambda s: s != 0), ('eval_lt', lambda s: s < 0), ('eval_le', lambda s: s <= 0),
                    ('eval_gt', lambda s: s > 0), ('eval_ge', lambda s: s >= 0)):
        x.ob('operator ' + root[5:], 'follows the order of poker', compare(root[5:], meth(root, True), g))


# ------------------------------------------------------------------ C13
def proof(w, n, entry='ev_slice'):
    return w.cached(('six', n, entry), lambda: six_plus(w, n, entry))


def six_value(w, n, entry='ev_slice'):
    hook, sel, q = proof(w, n, entry)
    ok, er = ok_err(w, entry)
    if ok not in q.value.vs:
        raise Unsupported('no evaluation of %d cards' % n)
    return hook, sel, q, q.value.vs[ok][0]


def prove_best(w, n, entry='ev_slice'):
    """(why it cannot be proved, or None)"""
    hook, sel, q, e = six_value(w, n, entry)
    nm = sel.name(e)
    if nm is None:
        return 'the result is not a selection among five-card evaluations', None
    try:
        subs, low = sel.solve(nm)
    except Broken as b:
        return b.what, None
    except Unsupported as e:
        return str(e), None
    want = set(frozenset(c) for c in itertools.combinations(range(n), 5))
    if set(subs) != want:
        miss = sorted(sorted(s) for s in want - set(subs))
        return 'the places %s are never considered' % (miss[0] if miss else '?'), None
    if low is not None and low < oracle.NCLASS - 1:
        return 'the search starts from %s' % describe_class(low), None
    return None, (len(subs), sel.checked)


def describe_class(k):
    return class_name(want_class(k))


def strengths_on(w, n, hands, entry='ev_slice'):
    """What the analysed combination yields on given hands, as class numbers."""
    hook, sel, q, e = six_value(w, n, entry)
    cs = {c[0]: c[2] for c in columns(e)}
    terms, paths = [], []
    for p in sel.paths:
        if p in cs:
            paths.append(p)
            terms.append(cs[p])
    vals = on_hands(hook, sel, [q.value.disc] + terms, hands)
    ok, er = ok_err(w, entry)
    m = len(hands)
    got = {p: v for p, v in zip(paths, vals[1:])}
    tabs = {p: a for p, (_, a) in zip(sel.paths, sel.table)}
    acts = {p: act for p, (act, _) in zip(sel.paths, sel.table)}
    # identify the class by its columns
    index = {}
    for k in range(oracle.NCLASS):
        key = tuple(int(tabs[p][k]) if all(sel.disc[qq][k] == var for qq, var in acts[p]) else -9 for p in sel.paths)
        index.setdefault(key, k)
    disc = {p: got[p] for p in got}
    out = np.full(m, -1)
    for i in range(m):
        if vals[0][i] != ok:
            out[i] = -2
            continue
        key = []
        for p in sel.paths:
            live = all(qq in disc and disc[qq][i] == var for qq, var in acts[p])
            key.append(int(got[p][i]) if live and p in got else -9)
        out[i] = index.get(tuple(key), -1)
    return out


def weak_hands(n):
    """Hands of n cards whose best five are as weak as possible, and other lopsided ones."""
    out = []
    for top in range(12, 4, -1):
        base = [r for r in range(top + 1)]
        for drop in itertools.combinations(base, max(0, len(base) - n)):
            rs = [r for r in base if r not in drop]
            if len(rs) == n:
                out.append([(r, i % 4) for i, r in enumerate(rs)])
            if len(out) > 4000:
                break
    return out


def best_five(x, n):
    w = x.w

    def f():
        strict(lambda: w.classes())
        try:
            why, got = prove_best(w, n)
        except Unsupported:
            if n > 9:           # perhaps some hands can be followed
                best_at(x, n, None, None)()
            raise
        if why is None:
            return '%d subsets, %d selections, every hand of %d cards' % (got[0], got[1], n)
        # the proof fails: is there a hand for which the result is not the best?
        hands = np.concatenate([rival_hands(n, 1500, 9), sample_hands(n, 3000, 7)])
        wk = weak_hands(n)
        if wk:
            hands = np.concatenate([hands, np.array(wk)])
        hands = np.concatenate([hands, focus_hands(w, n)]) if n <= 10 else hands
        got = strengths_on(w, n, hands)
        best = best_of(hands)
        bad = np.nonzero((got != best) & (got != -2))[0]
        if len(bad):
            k = int(bad[0])
            g = int(got[k])
            raise Broken(w.where('ev_slice'), 'the hand %s has %s (number %d) as its best, but evaluates as %s (%s)' % (
                hand_text(hands[k]), describe_class(int(best[k])), int(best[k]) + 1,
                '%s (number %d)' % (describe_class(g), g + 1) if g >= 0 else 'something else', why))
        raise Unsupported('no proof (%s) and no counterexample' % why)
    return f


def focus_hands(w, n):
    """Hands in which a class meets its neighbours: each class followed by fillers at different places."""
    rnd = np.random.default_rng(3)
    out = []
    for k in range(0, oracle.NCLASS, 2):
        base = [tuple(c) for c in oracle.REPS[k].tolist()]
        have = dict.fromkeys(base)
        while len(have) < n:
            r = int(rnd.integers(13)) if k % 4 else int(rnd.integers(6))
            have[(r, int(rnd.integers(4)))] = None
        l = list(have)
        sh = int(rnd.integers(n))
        out.append(l[sh:] + l[:sh])
    return np.array(out)


def sizes(x):
    ns = list(range(6, 13)) if x.thorough else list(range(6, 10))
    extra = [n for n in constants(x) if n not in ns and 6 <= n <= (16 if x.thorough else 12)]
    return ns + sorted(extra)


def constants(x, w=None, entry='ev_slice'):
    """Hand sizes near the integer constants of the functions that evaluate six or more cards."""
    w = w or x.w
    try:
        proof(w, 6, entry)
    except (Unsupported, Diverged, Broken):
        pass
    out = set()
    for k in list(w.analysed):
        i = w.P.insts[k]
        if i['crate'] != 'poker' or i['body'] is None or 'lookup_table' in i['name']:
            continue
        for c in small_ints(i['body']):
            out |= {c - 1, c, c + 1}
    return sorted(n for n in out if n > 5)


def thresholds(x):
    """Hand sizes whose number of five-card subsets is the first above a constant of the combining code."""
    w = x.w
    before = dict(w.analysed)
    w.analysed.clear()
    try:
        six_plus(w, 6)
    except (Unsupported, Diverged, Broken):
        pass
    mine = dict(w.analysed)
    for k, v in before.items():
        w.analysed[k] = w.analysed.get(k, 0) + v
    out = set()
    def about_cards(t):
        T = w.P.types[t]
        if T['k'] in ('ref', 'ptr', 'slice', 'array'):
            return (T['k'] in ('slice', 'array') and T['ty'] == w.card_ty) or about_cards(T['ty'])
        return T['k'] == 'adt' and any(a == w.card_ty for a in T.get('args') or [])
    for k in mine:
        i = w.P.insts[k]
        if i['crate'] != 'poker' or i['body'] is None:
            continue
        lists = any(about_cards(t) for t in i['body']['locals'])
        ints = small_ints(i['body'], hi=15000)
        if shifts(i['body']):
            ints |= {1 << c for c in small_ints(i['body'], hi=14)}
        ints |= {(1 << b) - 1 for b in narrow(w, i['body'])}
        for c in ints:
            for n in range(10, 18):
                if math.comb(n - 1, 5) <= c < math.comb(n, 5):
                    out.add((n, c, i['name']))
            if lists:
                out |= {(n, c, i['name']) for n in (c, c + 1) if 12 < n <= 48}
    return sorted(out)


def known_class(w, cards, seconds=120, ev=None):
    """Class number of one given hand, by following constants through the code."""
    hook, sel, q = proof(w, 6)
    ok, er = ok_err(w, 'ev_slice')
    ev = ev or w.evaluator().value
    v = w.run('ev_slice', lambda h: [h.ref(ev), h.slice([w.card(r, s) for r, s in cards])], hook=score.KnownHook(w), seconds=seconds).value
    if not v.disc.is_const:
        raise Unsupported('the outcome for one hand is not known')
    if v.disc.data != ok:
        return -2
    got = {c[0]: c[2] for c in columns(v.vs[ok][0])}
    if any(not t.is_const for t in got.values()):
        raise Unsupported('the evaluation of one hand is not known')
    tabs = {p: a for p, (_, a) in zip(sel.paths, sel.table)}
    acts = {p: act for p, (act, _) in zip(sel.paths, sel.table)}
    for k in range(oracle.NCLASS):
        if all(p in got and int(tabs[p][k]) == int(got[p].data) for p in sel.paths if all(sel.disc[qq][k] == var for qq, var in acts[p])):
            return k
    return -1


SPENT = [0.0]


def best_at(x, n, c, at):
    w = x.w

    def f():
        strict(lambda: w.classes())
        k, beyond = 0, 0
        for places, low in ((range(n - 5, n), 8), (range(n - 5, n), 0), ((0, 1, n // 2, n - 2, n - 1), 8), (range(5), 8)):
            if not low and n > 17:
                continue
            best = [(r, 2) for r in range(low, low + 5)]
            rest = ([(r, s) for r in (range(13) if low else range(12, -1, -1)) for s in (0, 1, 3)] + [(r, 2) for r in range(8)])[:n - 5]
            hand = list(rest)
            for i, p in enumerate(places):
                hand.insert(p, best[i])
            want = 0 if low else int(best_of(np.array([hand]))[0])
            t = time.time()
            try:
                got = known_class(w, hand, 120 if n < 16 else max(5, min(100 if not k else 25, 250 - SPENT[0])))
            except Unsupported:
                if n < 16:
                    raise
                beyond += 1     # more subsets than can be followed one by one: no verdict, and no shortcut taken
                break
            finally:
                SPENT[0] += time.time() - t
            if got != want:
                raise Broken(w.where('ev_slice'), 'the hand %s contains %s (number %d), but evaluates as %s' % (
                    hand_text(hand), describe_class(want), want + 1, '%s (number %d)' % (describe_class(got), got + 1) if got >= 0 else 'something else'))
            k += 1
            if time.time() - t > 20:
                break
        return '%d hands of %d cards%s' % (k, n, ', %d not followed to the end' % beyond if beyond else '')
    return f


def shifts(o):
    """A shift is among the operations."""
    if isinstance(o, dict):
        return o.get('r') == 'bin' and str(o.get('op', '')).startswith('Shl') or any(shifts(v) for v in o.values())
    return isinstance(o, list) and any(shifts(v) for v in o)


def narrow(w, body):
    """Widths under 16 bits of the numbers that are added up."""
    out = set()
    for b in body['blocks']:
        for s in b['st']:
            v = s.get('v')
            if isinstance(v, dict) and v.get('r') == 'bin' and str(v.get('op', '')).startswith('Add'):
                t = w.P.types[body['locals'][s['p'][0]]]
                if t['k'] == 'tuple':
                    t = w.P.types[t['tys'][0]]
                if t['k'] == 'int' and t['bits'] == 8:
                    out.add(t['bits'])
    return out


def small_ints(b, out=None, hi=52):
    if out is None:
        out = set()
    if isinstance(b, dict):
        if 'int' in b and isinstance(b['int'], (int, str)):
            try:
                v = int(b['int'])
                if 6 <= v <= hi:
                    out.add(v)
            except ValueError:
                pass
        for v in b.values():
            small_ints(v, out, hi)
    elif isinstance(b, list):
        for v in b:
            small_ints(v, out, hi)
    return out


def C13(x):
    w = x.w
    for n in sizes(x):
        if sum(o['status'] == 'broken' for o in x.obs) >= 2:
            break       # two sizes with a witness are enough; larger ones only take longer
        x.ob('best of %d cards' % n, 'the combining code is a selection tree that keeps the stronger side and whose leaves are all five-card subsets', best_five(x, n))
    done = set()
    for n, c, at in sorted(thresholds(x), key=lambda t: (t[1], -t[0])):
        if n in done or sum(o['status'] == 'broken' for o in x.obs) >= 2:
            continue
        done.add(n)
        x.ob('best of %d cards, past the constant %d' % (n, c), 'the constant %d of %s cuts no subset off' % (c, at), best_at(x, n, c, at))


# ------------------------------------------------------------------ C14
def C14(x):
    w = x.w
    ft_ = lambda: five_table(w)

    def check(ft, p, q, mask, suits, what, conv):
        bad = mask & (p != q)
        if bad.any():
            pairs = np.stack([p[bad], q[bad]], axis=1)
            pts = np.argwhere(bad)
            _, first = np.unique(pairs, axis=0, return_index=True)
            for k in first[:200]:
                why = indistinct(w, int(pairs[k][0]), int(pairs[k][1]))
                if why:
                    h = [(int(r), int(s)) for r, s in zip(pts[k], suits(tuple(pts[k])))]
                    raise Broken(ft.where, '%s: %s and %s evaluate differently: %s' % (what, hand_text(h), hand_text(conv(h)), why))

    def reorder(i):
        def f():
            ft = ft_()
            hs = ft.hs
            perm = list(range(5))
            perm[i], perm[i + 1] = perm[i + 1], perm[i]
            idx = np.arange(1024).reshape((4,) * 5).transpose(perm).reshape(-1)     # suit tuple -> its swapped tuple
            n = 0
            for g, (fl, members, mask, ids) in enumerate(ft.groups):
                to = ft.suit_group[idx[members]]
                for g2 in np.unique(to):
                    mem = members[to == g2]
                    m, wit = hs.feasible(mem)
                    if g2 < 0:
                        continue
                    other = np.transpose(ft.groups[g2][3], perm)
                    check(ft, ids, other, m, lambda p: hs.suits[:, wit[p]], 'exchanging cards %d and %d' % (i, i + 1),
                          lambda h: [h[k] for k in perm])
                    n += int(m.sum())
            return '%d rank and suit cells' % n
        return f
    for i in range(4):
        x.ob('order of five, exchange %d %d' % (i, i + 1), 'exchanging two neighbouring cards changes no evaluation, for every hand (exchanges generate all orders)', reorder(i))

    def rename(a, b):
        def f():
            ft = ft_()
            hs = ft.hs
            m = np.arange(4)
            m[a], m[b] = b, a
            s2 = m[hs.suits]
            idx = (((s2[0] * 4 + s2[1]) * 4 + s2[2]) * 4 + s2[3]) * 4 + s2[4]
            n = 0
            for g, (fl, members, mask, ids) in enumerate(ft.groups):
                to = ft.suit_group[idx[members]]
                for g2 in np.unique(to):
                    mem = members[to == g2]
                    mk_, wit = hs.feasible(mem)
                    if g2 < 0:
                        continue
                    check(ft, ids, ft.groups[g2][3], mk_, lambda p: hs.suits[:, wit[p]], 'renaming %s and %s' % (oracle.SUITS[a], oracle.SUITS[b]),
                          lambda h: [(r, int(m[s])) for r, s in h])
                    n += int(mk_.sum())
            return '%d rank and suit cells' % n
        return f
    for a in range(3):
        x.ob('suits of five, exchange %s %s' % (oracle.SUITS[a], oracle.SUITS[a + 1]), 'exchanging two suits changes no evaluation, for every hand', rename(a, a + 1))

    def more(n):
        def f():
            strict(lambda: w.classes())
            why, got = prove_best(w, n)
            if why is None:
                return 'the strongest of all %d subsets: a symmetric function' % got[0]
            hands = np.concatenate([rival_hands(n, 1500, 9), sample_hands(n, 1500, 11)] + ([focus_hands(w, n)] if n <= 10 else []))
            a = strengths_on(w, n, hands)
            rnd = np.random.default_rng(5)
            for t in range(6):
                p = rnd.permutation(n) if t else np.arange(n)[::-1]
                m = rnd.permutation(4) if t % 2 else np.arange(4)
                h2 = hands[:, p].copy()
                h2[..., 1] = m[h2[..., 1]]
                b = strengths_on(w, n, h2)
                bad = np.nonzero(a != b)[0]
                if len(bad):
                    k = int(bad[0])
                    raise Broken(w.where('ev_slice'), 'the hands %s and %s evaluate differently (%s)' % (hand_text(hands[k]), hand_text(h2[k]), why))
            raise Unsupported('no proof (%s) and no counterexample' % why)
        return f
    for n in ((6, 7, 8) if not x.thorough else (6, 7, 8, 9, 10)):
        x.ob('order and suits of %d' % n, 'the result is the strongest of all five-card subsets, which depends only on the set of cards', more(n))


# ------------------------------------------------------------------ C15
def C15(x):
    w = x.w
    d = lambda: domain(w)
    where = lambda root: w.where(root)

    def order():
        c = d().cmp()
        n = d().n
        bad = np.argwhere(c != -c.T)
        if len(bad):
            a, b = bad[0]
            raise Broken(where('eval_cmp'), 'comparing %s with %s gives %d, the other way round %d' % (d().label(a), d().label(b), c[a, b], c[b, a]))
        s = d().strength()
        for i in range(0, n, 512):
            want = np.sign(s[i:i + 512, None] - s[None, :])
            bad = np.argwhere(c[i:i + 512] != want)
            if len(bad):
                a, b = int(bad[0][0]) + i, int(bad[0][1])
                raise Broken(where('eval_cmp'), 'the comparison is not transitive around %s and %s' % (d().label(a), d().label(b)))
        return '%d x %d evaluations, %d strengths' % (n, n, s.max() + 1)
    x.ob('total order', 'cmp is antisymmetric and transitive over all evaluations', order)

    def agree(root, want, byref=True):
        def f():
            q = d().pair(root, byref)
            got = d().table2(q.value, dt=bool)
            return diff(root, got, want(d().cmp()))
        return f

    def diff(root, got, want):
        bad = np.argwhere(got != want)
        if len(bad):
            a, b = (int(v) for v in bad[0])
            raise Broken(where(root), 'on %s and %s the operation gives %s, against cmp' % (d().label(a), d().label(b), got[a, b]))
        return '%d x %d evaluations' % got.shape
    for root, g, byref in (('eval_better', lambda c: c > 0, False), ('eval_worse', lambda c: c < 0, False), ('eval_equal', lambda c: c == 0, False),
                           ('eval_eq', lambda c: c == 0, True), ('eval_ne', lambda c: c != 0, True), ('eval_lt', lambda c: c < 0, True),
                           ('eval_le', lambda c: c <= 0, True), ('eval_gt', lambda c: c > 0, True), ('eval_ge', lambda c: c >= 0, True)):
        x.ob(root, 'agrees with cmp over all pairs', agree(root, g, byref))

    def partial():
        q = d().pair('eval_partial_cmp')
        some = vnum(w, w.retty('eval_partial_cmp'), 'Some')
        t = d().table2(eq(q.value.disc, const(some, VIDX)), dt=bool)
        m = d().ordmap(q.value.vs[some][0].ty)
        o = d().table2(q.value.vs[some][0].disc, lambda a: m[a])
        return diff('eval_partial_cmp', np.where(t, o, 9), d().cmp())
    x.ob('eval_partial_cmp', 'is always Some and agrees with cmp over all pairs', partial)

    def pick(root, first):
        def f():
            q = d().pair(root, False)
            reg = d().reg
            al = reg.align(q.value)
            got = [np.zeros((d().n, d().n), np.int32) if t is None else d().table2(t, dt=np.int32) for t in al]
            c = d().cmp()
            rows = np.array(d().rows).reshape(d().n, -1)
            at = {p: a for p, a in zip(reg.paths, got)}
            isa = np.ones(c.shape, dtype=bool)
            isb = np.ones(c.shape, dtype=bool)
            for k, (p, act) in enumerate(zip(reg.paths, reg.acts)):
                live = np.ones(c.shape, dtype=bool)
                for pp, var in act:
                    live &= at[pp] == var
                v = np.where(live, got[k], 0)
                isa &= v == rows[:, k][:, None]
                isb &= v == rows[:, k][None, :]
            okm = np.where(c == 0, isa | isb, np.where((c > 0) == first, isa, isb))
            bad = np.argwhere(~okm)
            if len(bad):
                a, b = (int(v) for v in bad[0])
                raise Broken(where(root), 'on %s and %s the wrong one is taken' % (d().label(a), d().label(b)))
            return '%d x %d evaluations' % c.shape
        return f
    x.ob('eval_max', 'max keeps the stronger of the two by cmp', pick('eval_max', True))
    x.ob('eval_min', 'min keeps the weaker of the two by cmp', pick('eval_min', False))

    def hashing():
        from checks_card import hash_log
        A = d().dim('a')
        q, log = hash_log(w, 'eval_hash', d().value(A))
        s = d().strength()
        cols = []
        for g, t in log:
            gv = d().col(g)
            tv = d().col(t)
            cols.append(np.where(gv, tv.astype(np.int64), -7777))
        seen = {}
        for i in range(d().n):
            row = tuple(int(c[i]) for c in cols)
            j = seen.setdefault(int(s[i]), (i, row))
            if j[1] != row:
                raise Broken(where('eval_hash'), '%s and %s are equal but hash differently' % (d().label(j[0]), d().label(i)))
        return '%d evaluations, %d hash inputs' % (d().n, len(cols))
    x.ob('eval_hash', 'equal evaluations feed a hasher the same data', hashing)

    def clone():
        A = d().dim('a')
        a = d().value(A)
        q = w.run('eval_clone', lambda h: [h.ref(a)])
        same_value(q.value, a, where('eval_clone'), 'cloning changes an evaluation', w)
        return d().n
    x.ob('eval_clone', 'cloning is the identity', clone)


# ------------------------------------------------------------------ C16
def C16(x):
    w = x.w
    d = lambda: domain(w)

    def pred(cat, name):
        def f():
            root = 'eval_' + name
            got = d().col(d().one(root).value)
            cc = d().class_cols()
            for i in range(d().n):
                want = cc[i][0] == cat
                if bool(got[i]) != want:
                    raise Broken(w.where(root), '%s reports the class %s but %s is %s' % (d().label(i), class_name(cc[i]), name, bool(got[i])))
            return d().n
        return f
    for cat, name in oracle.PREDICATES.items():
        x.ob(name, 'true exactly for the evaluations whose class is %s' % cat, pred(cat, name))

    def royal():
        root = 'eval_is_royal_flush'
        got = d().col(d().one(root).value)
        cc = d().class_cols()
        for i in range(d().n):
            want = cc[i] == ('StraightFlush', (12,))
            if bool(got[i]) != want:
                raise Broken(w.where(root), '%s reports the class %s but is_royal_flush is %s' % (d().label(i), class_name(cc[i]), bool(got[i])))
        return d().n
    x.ob('is_royal_flush', 'true exactly for ace-high straight flushes', royal)


# ------------------------------------------------------------------ C17
def C17(x):
    w = x.w
    d = lambda: domain(w)
    royal = [(r, 3) for r in range(8, 13)]
    low = [(5, 0), (3, 1), (2, 2), (1, 3), (0, 0)]

    def same(which, hand, cat):
        def f():
            k = int(five_table(w).lookup([hand])[0])
            c = d().const[which]
            if k < 0:
                raise Unsupported('the hand has no evaluation')
            why = indistinct(w, c, k) if c != k else None
            if why:
                raise Broken(which, 'Eval::%s is not the evaluation of %s: %s' % (which[5:].upper(), hand_text(hand), why))
            got = d().class_cols()[c]
            if got != cat:
                raise Broken(which, 'Eval::%s has the class %s' % (which[5:].upper(), class_name(got)))
            return hand_text(hand)
        return f
    x.ob('BEST', 'is the evaluation of a royal flush', same('eval_best', royal, ('StraightFlush', (12,))))
    x.ob('WORST', 'is the evaluation of 7-5-4-3-2 unsuited', same('eval_worst', low, ('HighCard', (5,))))

    def bound(which, root):
        def f():
            c = d().const[which]
            q = d().pair(root, False)
            A, B = d().dim('a'), d().dim('b')
            t = np.broadcast_to(evaluate(q.value, {A: np.arange(d().n), B: np.full(d().n, c)}), (d().n,))
            bad = np.nonzero(t)[0]
            if len(bad):
                raise Broken(which, 'the hand %s passes Eval::%s' % (d().label(int(bad[0])), which[5:].upper()))
            o = d().cmp()[:, c]
            bad = np.nonzero(o == (1 if which == 'eval_best' else -1))[0]
            if len(bad):
                raise Broken(which, 'the hand %s compares beyond Eval::%s' % (d().label(int(bad[0])), which[5:].upper()))
            return '%d evaluations' % d().n
        return f
    x.ob('nothing better', 'no evaluation is better than BEST', bound('eval_best', 'eval_better'))
    x.ob('nothing worse', 'no evaluation is worse than WORST', bound('eval_worst', 'eval_worse'))


# ------------------------------------------------------------------ C18
def class_values(w):
    """Every class value that can be written: (dimension, value, [(category, ranks)])."""
    def f():
        T = w.P.types[w.class_ty]['variants']
        rows = []
        for cat, fields in oracle.CATEGORIES:
            for rs in itertools.product(range(13), repeat=len(fields)):
                rows.append((cat, rs))
        K = Dim('class value', len(rows), label=lambda i: '%s%s' % (rows[i][0], tuple(oracle.RANKS[r] for r in rows[i][1])))
        order = w.rank_order()
        vs = {}
        for i, v in enumerate(T):
            fn = [z['name'] for z in v['fields']]
            want = dict(oracle.CATEGORIES).get(v['name'])
            if want is None or sorted(fn) != sorted(want):
                raise Unsupported('class %s with fields %s' % (v['name'], fn))
            fs = []
            for name in fn:
                p = want.index(name)
                a = np.array([order[rs[p]] if cat == v['name'] else 0 for cat, rs in rows])
                fs.append(Enum(dimvar(K, a, VIDX), {k: () for k in range(13)}, w.rank_ty))
            vs[i] = tuple(fs)
        disc = dimvar(K, np.array([[v['name'] for v in T].index(cat) for cat, _ in rows]), VIDX)
        return K, Enum(disc, vs, w.class_ty), rows
    return w.cached('class values', f)


def C18(x):
    w = x.w
    d = lambda: domain(w)

    def classes():
        K, v, rows = class_values(w)
        q = w.run('class_display', lambda h: [h.ref(v)])
        got = table(q.value.term, [K])
        n = 0
        for i, (cat, rs) in enumerate(rows):
            if cat in ('TwoPair', 'FullHouse') and rs[0] == rs[1]:
                continue
            want = oracle.class_text(cat, rs)
            if got[i] != want:
                raise Broken(w.where('class_display'), 'the class %s shows as %r instead of %r' % (K.label(i), got[i], want))
            n += 1
        return '%d class values' % n
    x.ob('classes', 'the text of every class value is the documented English name', classes)

    def evals():
        q = d().one('eval_display', byref=True)
        got = d().col(q.value.term)
        cc = d().class_cols()
        for i in range(d().n):
            want = oracle.class_text(*cc[i])
            if got[i] != want:
                raise Broken(w.where('eval_display'), 'the evaluation of %s, a %s, shows as %r' % (d().label(i), want, got[i]))
        return '%d evaluations' % d().n
    x.ob('evaluations', 'every evaluation shows the text of its class', evals)


# ------------------------------------------------------------------ C22
def C22(x):
    w = x.w

    def equal(a, b, what):
        def f():
            va, vb = any_evaluator(x.w0 if a == b else w, a), any_evaluator(w, b)
            for p, q in ((va, vb), (vb, va)):
                r = w.run('ev_eq', lambda h: [h.ref(p), h.ref(q)])
                c = find(lnot(r.value))
                if c is not None:
                    raise Broken(w.where(b), 'a %s evaluator is not equal to a new one' % what)
            return 'both ways'
        return f
    x.ob('default equals new', 'a default evaluator is == to a new one', equal('ev_new', 'ev_default', 'default'))
    x.ob('clone equals original', 'a clone is == to its original', equal('ev_new', 'ev_clone', 'cloned'))
    x.ob('clone_from equals original', 'an evaluator overwritten by clone_from is == to the one copied', equal('ev_new', 'ev_clone_from', 'overwritten'))
    x.ob('new equals new', 'two new evaluators are ==', equal('ev_new', 'ev_new', 'second new'))

    def alike(ev):
        def f():
            a = five_table(w)
            b = five_table(w, ev)
            same_table(w, a, b, 'evaluator from %s' % ev[3:])
            if len(a.events) != len(b.events) and b.events:
                raise Broken(b.events[0][0].where(), 'an evaluator from %s fails on %s' % (ev[3:], hand_text(b.events[0][1])))
            return ALL % b.hands
        return f
    x.ob('default evaluates alike', 'every five-card hand has the same evaluation with a default evaluator', alike('ev_default'))
    x.ob('clone evaluates alike', 'every five-card hand has the same evaluation with a cloned evaluator', alike('ev_clone'))

    def hidden():
        """Evaluators that hold something else besides their tables: does it make a difference?"""
        base = w.evaluator('ev_new').value
        mine = besides_tables(base)
        others = [('a %s evaluator' % k[3:], any_evaluator(w, k)) for k in ('ev_default', 'ev_clone_from')]
        others += [('a clone made in %d steps' % k, c.value) for k, _, c in clones(w, 10)]
        hands = [[(c % 13, c // 13) for c in h] for h in np.array([[0, 14, 28, 42, 5, 7, 30], [12, 25, 38, 51, 1, 2, 3], [0, 1, 2, 4, 50, 49, 5],
                                                                  [20, 33, 5, 18, 3, 42, 9], [0, 13, 27, 41, 29, 11, 12]]).tolist()]
        hands += [h[::-1] for h in hands]
        hands = [h[:n] for h in hands for n in (5, 6, 7)] + [hands[0][:4], hands[0][:5] + hands[0][:1]]
        n = 0
        for name, v in others:
            if besides_tables(v) == mine:
                continue
            n += 1
            for h in hands:
                a, b = known_class(w, h), known_class(w, h, ev=v)
                if a != b:
                    say = lambda k: describe_class(k) if k >= 0 else 'refused'
                    raise Broken(w.where('ev_slice'), '%s evaluates %s as %s, a new one as %s' % (
                        name, hand_text(h), say(b), say(a)))
        if n:
            raise Unsupported('%d evaluators hold something else than a new one; no difference found' % n)
        return '%d evaluators hold the same besides their tables' % len(others)
    x.ob('nothing else inside', 'what evaluators hold besides their tables is the same however they were made, or makes no difference', hidden)
    x.ob('clone_from evaluates alike', 'every five-card hand has the same evaluation with an evaluator overwritten by clone_from', alike('ev_clone_from'))

    def pure():
        for root in ('ev_new', 'ev_default'):
            q = w.evaluator(root)
            if q.effects:
                raise Broken(w.where(root), 'building an evaluator depends on %s' % q.effects[0][0])
            for _, _, t in ev_columns(q.value):
                if t.syms:
                    raise Broken(w.where(root), 'building an evaluator depends on unknowns')
        return 'no effects, no unknowns'
    x.ob('construction is a constant', 'building an evaluator reads nothing', pure)


def ev_columns(v):
    try:
        return columns(v)
    except Unsupported:
        return []


# ------------------------------------------------------------------ C24
def maps_in(v):
    if isinstance(v, Map):
        return [v]
    return [m for x in (v.fields if isinstance(v, Agg) else []) for m in maps_in(x)]


def C24(x):
    """The static entry over tables equal to the generated ones, against the evaluator's."""
    w = x.ws
    S, D = 'ev_static', 'ev_slice'
    where = w.where(S)
    ok, er = ok_err(w, S)
    ety = w.P.types[w.retty(S)]['variants'][er]['fields'][0]['ty']

    def supply():
        q = w.evaluator()
        for m in maps_in(q.value):
            n = q.I.finalize_map(m).size
            name = {1287: 'FLUSH_LOOKUP', 6175: 'UNSUITED_LOOKUP'}.get(n)
            if name is None or name in w.tables:
                raise Unsupported('the evaluator does not hold one table of 1287 and one of 6175 entries')
            w.tables[name] = m
        if len(w.tables) != 2:
            raise Unsupported('the evaluator does not hold one table of 1287 and one of 6175 entries')
    supply()
    shared = set(constants(x, w, D))

    def five():
        a, b = five_table(w), five_table(w, entry=S)
        if b.events and not a.events:
            raise Broken(b.events[0][0].where(), 'the static evaluation fails on %s: %s' % (hand_text(b.events[0][1]), b.events[0][0].msg))
        if (a.refused is None) != (b.refused is None):
            raise Broken(where, 'the hand %s is refused by only one of the two' % hand_text(b.refused or a.refused))
        same_table(w, a, b, 'statically')
        return ALL % b.hands
    x.ob('five cards evaluate alike', 'every five-card hand has the evaluation the evaluator gives it', five)

    def results(n, entry):
        cs = [w.free_card(i)[2] for i in range(n)]
        if n == 5:
            return run_five(w, 'ev_new', entry)
        if n > 5:
            return proof(w, n, entry)[2]
        ev = w.evaluator().value
        return w.cached(('slice', n, entry), lambda: w.run(entry, lambda h: [h.ref(ev), h.slice(cs)]))

    def verdict(n):
        def f():
            p, q = results(n, D).value, results(n, S).value
            t = lnot(eq(p.disc, q.disc))
            if er in p.vs and er in q.vs:
                t = lor(t, land(eq(q.disc, const(er, VIDX)), differ(p.vs[er][0], q.vs[er][0])))
            if t is FALSE:
                return 'the same conditions over all sequences of %d cards' % n
            E = Equalities(w, n)
            try:
                bad = np.nonzero(E.table(t))[0]
            except Unsupported:
                bad = ()
            if len(bad):
                raise Broken(where, '%d cards have different results [%s]' % (n, E.label(int(bad[0]))))
            hands = probe_hands(n) if n > 1 else None
            if hands is not None and not t.syms and t.dims <= set(card_env(w, hands)):
                hit = np.nonzero(np.broadcast_to(evaluate(t, card_env(w, hands)), (len(hands),)))[0]
                if len(hit):
                    raise Broken(where, '%d cards have different results [%s]' % (n, hand_text(hands[hit[0]])))
            never(t, where, '%d cards have different results' % n, w)
            return 'the same results over all sequences of %d cards' % n
        return f
    for n in range(0, 10 if x.thorough else 9):
        x.ob('verdict for %d cards' % n, 'accepted or refused as the evaluator does, with the same error', verdict(n))

    def best(n):
        def f():
            strict(lambda: w.classes())
            a, got = prove_best(w, n, S)
            b, _ = prove_best(w, n, D)
            if a is None and b is None:
                return '%d subsets, %d selections, every hand of %d cards' % (got[0], got[1], n)
            hands = np.concatenate([rival_hands(n, 1500, 9), sample_hands(n, 3000, 7)])
            wk = weak_hands(n)
            if wk:
                hands = np.concatenate([hands, np.array(wk)])
            u, v = strengths_on(w, n, hands, S), strengths_on(w, n, hands, D)
            bad = np.nonzero(u != v)[0]
            if len(bad):
                k = int(bad[0])
                raise Broken(where, 'the hand %s evaluates statically as %s, by an evaluator as %s' % (
                    hand_text(hands[k]), *('%s' % describe_class(int(z[k])) if z[k] >= 0 else 'something else' for z in (u, v))))
            raise Unsupported('no proof (%s) and no counterexample' % (a or b))
        return f
    own = [n for n in constants(x, w, S) if n not in shared and n <= 11]
    for n in sorted(set(range(6, 11 if x.thorough else 9)) | set(own)):
        x.ob('best of %d cards' % n, 'both select the strongest of all five-card subsets', best(n))

    def entry(root):
        def f():
            if root not in w.roots:
                raise Missing(root)
            t = five_table(w, 'ev_new', root)
            same_table(w, five_table(w, entry=S), t, 'in another container')
            return ALL % t.hands
        return f
    for root in ('ev_static_vec', 'ev_static_arr5'):
        x.ob('%s of five' % root, 'every kind of container gets the result of the slice of its cards', entry(root))


# ------------------------------------------------------------------ C25
def C25(x):
    w = x.w

    def key(row):
        return (oracle.CAT[row[0]],) + row[1]

    def table_of(root):
        K, v, rows = class_values(w)
        L = Dim('other class value', K.size, label=K.label)
        u = vrestrict(v, {K: (L, np.arange(K.size))})
        q = w.run(root, lambda h: [h.ref(v), h.ref(u)])
        rank = {k: i for i, k in enumerate(sorted(set(key(r) for r in rows)))}
        s = np.array([rank[key(r)] for r in rows])
        return q, [K, L], np.sign(s[:, None] - s[None, :])

    def omap(ty):
        return np.array([{'Less': -1, 'Equal': 0, 'Greater': 1}[z['name']] for z in w.P.types[ty]['variants']])
    from checks_card import expect

    def total():
        q, dims, want = table_of('class_cmp')
        return expect(omap(q.value.ty)[table(q.value.disc, dims)], want, dims, w.where('class_cmp'), 'classes compare wrongly')

    def partial():
        q, dims, want = table_of('class_partial_cmp')
        some = vnum(w, w.retty('class_partial_cmp'), 'Some')
        never(lnot(eq(q.value.disc, const(some, VIDX))), w.where('class_partial_cmp'), 'two classes do not compare', w)
        p = q.value.vs[some][0]
        return expect(omap(p.ty)[table(p.disc, dims)], want, dims, w.where('class_partial_cmp'), 'classes compare wrongly')

    def op(root, f):
        def g():
            q, dims, want = table_of(root)
            return expect(table(q.value, dims), f(want), dims, w.where(root), 'the operator does not follow the order')
        return g
    x.ob('cmp', 'category first, then ranks, over all 429 x 429 class values', total)
    x.ob('partial_cmp', 'category first, then ranks, over all 429 x 429 class values', partial)
    for k, f in (('lt', lambda c: c < 0), ('le', lambda c: c <= 0), ('gt', lambda c: c > 0), ('ge', lambda c: c >= 0)):
        x.ob(k, 'follows the order', op('class_' + k, f))

    def pick(root, sign):
        def f():
            K, v, rows = class_values(w)
            L = Dim('other class value', K.size, label=K.label)
            u = vrestrict(v, {K: (L, np.arange(K.size))})
            q = w.run(root, lambda h: [v, u])
            rank = {k: i for i, k in enumerate(sorted(set(key(r) for r in rows)))}
            s = np.array([rank[key(r)] for r in rows])
            c = np.sign(s[:, None] - s[None, :]) * sign
            da, db = table(differ(q.value, v), [K, L]), table(differ(q.value, u), [K, L])
            good = np.where(c > 0, ~da, np.where(c < 0, ~db, ~da | ~db))
            return expect(good, np.ones(c.shape, dtype=bool), [K, L], w.where(root), 'the wrong one of two classes is taken')
        return f
    x.ob('max', 'gives the greater of the two', pick('class_max', 1))
    x.ob('min', 'gives the lesser of the two', pick('class_min', -1))
    x.ob('eq', 'equal exactly when category and ranks are', op('class_eq', lambda c: c == 0))

    def coherent():
        d = domain(w)
        cc = d.class_cols()
        s = d.strength()
        # by strength, the code's own class order must not decrease
        q, dims, _ = table_of('class_cmp')
        o = omap(q.value.ty)[table(q.value.disc, dims)]
        rows = {r: i for i, r in enumerate(class_values(w)[2])}
        ids = np.array([rows[c] for c in cc])
        by = np.argsort(s, kind='stable')
        # the best class seen so far must not exceed the next one
        top = by[0]
        for i in by[1:]:
            if s[i] > s[top] and o[ids[i], ids[top]] < 0:
                raise Broken(w.where('class_cmp'), '%s is better than %s but its class %s is less than %s' % (
                    d.label(int(i)), d.label(int(top)), class_name(cc[i]), class_name(cc[top])))
            if o[ids[i], ids[top]] > 0:
                top = i
        return '%d evaluations' % d.n
    x.ob('never against strength', 'a better evaluation never has a lesser class', coherent)
