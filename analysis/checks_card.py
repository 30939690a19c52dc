"""C01-C09, C23: cards, text, parsing, decks and macros."""
import math
import os
import re
import time
import itertools
import numpy as np
import models
import oracle
import seqs
from core import *
from models import Perm


def rank_idx(w, v, dims):
    """Oracle rank number of an abstract rank, as an array over dims."""
    inv = np.full(len(w.rank_names), -1)
    inv[w.rank_order()] = np.arange(13)
    return inv[table(v.disc, dims)]


def suit_idx(w, v, dims):
    inv = np.full(len(w.suit_names), -1)
    inv[w.suit_order()] = np.arange(4)
    return inv[table(v.disc, dims)]


def expect(got, want, dims, where, what):
    """Arrays over dims must be equal; reports the first point where they are not."""
    got = np.broadcast_to(got, want.shape)
    bad = np.argwhere(got != want)
    if len(bad):
        ix = tuple(int(i) for i in bad[0])
        pt = {d: i for d, i in zip(dims, ix)}
        raise Broken(where, '%s [%s]: %r instead of %r (%d of %d cases)' % (
            what, describe_point(None, pt, dims), got[ix] if got.dtype == object else got[ix].item(),
            want[ix] if want.dtype == object else want[ix].item(), len(bad), want.size))
    return int(want.size)


def need(w, root):
    if root not in w.roots:
        raise Missing('%s (%s)' % (root, w.gone.get(root, 'not reached')))


def run(w, root, build, **kw):
    need(w, root)
    return w.run(root, build, **kw)


# ------------------------------------------------------------------ C01
def free_cards(w, n):
    cs = [w.free_card(i) for i in range(n)]
    return cs, [d for c in cs for d in c[:2]]


def C01(x):
    w = x.w

    def accessor(root, conv, axis):
        def f():
            r, s, c = w.free_card(0)
            q = run(w, root, lambda h: [c])
            got = conv(w, q.value, [r, s])
            return expect(got, np.indices((13, 4))[axis], [r, s], w.where(root), 'the card does not give back what it was built from')
        return f
    x.ob('rank round trip', 'Card::new then rank() is the identity on the 13 ranks, for each of the 52 cards', accessor('card_rank', rank_idx, 0))
    x.ob('suit round trip', 'Card::new then suit() is the identity on the 4 suits, for each of the 52 cards', accessor('card_suit', suit_idx, 1))

    def equality(root, want):
        def f():
            cs, dims = free_cards(w, 2)
            q = run(w, root, lambda h: [h.ref(cs[0][2]), h.ref(cs[1][2])])
            g = np.indices((13, 4, 13, 4))
            same = (g[0] == g[2]) & (g[1] == g[3])
            return expect(table(q.value, dims), same if want else ~same, dims, w.where(root), 'card equality is not rank-and-suit equality')
        return f
    x.ob('equality', '== over all 52 x 52 pairs of cards is equality of rank and suit', equality('card_eq', True))
    x.ob('inequality', '!= over all 52 x 52 pairs of cards is its negation', equality('card_ne', False))

    def hashing():
        r, s, c = w.free_card(0)
        q, h = hash_log(w, 'card_hash', c)
        cols = []
        for g, t in h:
            if g is not TRUE:
                raise Unsupported('a conditional hash write')
            cols.append(table(t, [r, s]).reshape(-1))
        rows = set(zip(*[c.tolist() for c in cols])) if cols else {()}
        if len(rows) != 52:
            raise Broken(w.where('card_hash'), 'different cards feed the hasher the same data: %d distinct inputs for 52 cards' % len(rows))
        return '52 cards feed 52 different inputs to the hasher; equal cards feed equal ones'
    x.ob('hashing', 'what a card feeds to a hasher is a function of the card alone and differs between cards', hashing)

    def distinct():
        r, s, c = w.free_card(0)
        cols = [table(t, [r, s]).reshape(-1).tolist() for _, _, t in columns(c)]
        n = len(set(zip(*cols)))
        if n != 52:
            raise Broken(w.where('card_new'), 'Card::new builds %d distinct values from 52 rank and suit pairs' % n)
        return 52
    x.ob('52 cards', 'Card::new is injective on the 52 (rank, suit) pairs', distinct)

    def clone():
        r, s, c = w.free_card(0)
        q = run(w, 'card_clone', lambda h: [h.ref(c)])
        same_value(q.value, c, w.where('card_clone'), 'cloning changes the card', w)
        return 52
    x.ob('clone', 'cloning is the identity', clone)


def hash_log(w, root, v):
    """[(guard, term)] of everything a value feeds into a hasher."""
    box = {}

    def args(h):
        box['p'] = h.ref(Vec(Log(())))
        return [h.ref(v), box['p']]
    q = run(w, root, args)
    log = q.state.mem[box['p'].alloc]
    if not isinstance(log, Vec) or not isinstance(log.content, (Log, Arr)):
        raise Unsupported('hasher state %r' % (log,))
    out = []
    if isinstance(log.content, Arr):
        ents = [(TRUE, i) for i in log.content.items]
    else:
        ents = [(e.guard, e.value) for e in log.content.entries]
    for g, val in ents:
        for path, act, t in columns(val):
            out.append((g, t))
    return q, out


# ------------------------------------------------------------------ C02
def C02(x):
    w = x.w

    def layout():
        r, s, c = w.free_card(0)
        q = run(w, 'card_int', lambda h: [c])
        want = np.array([[oracle.card_int(i, n) for n in oracle.SUITS] for i in range(13)])
        return expect(table(q.value, [r, s]), want, [r, s], w.where('card_int'), 'the integer of the card is not the documented one')
    x.ob('layout', 'unique_integer() for each of the 52 cards equals the documented bit layout', layout)

    def parsed():
        n = 0
        for r in range(13):
            for s in range(4):
                t = oracle.RANK_CHARS[r] + oracle.SUIT_CHARS[oracle.SUITS[s]]
                q = run(w, 'card_from_str', lambda h: [StrRef(sconst(t))])
                ok, _ = ok_err(w, 'card_from_str')
                if not q.value.disc.is_const or q.value.disc.data != ok:
                    raise Broken(w.where('card_from_str'), 'the text %r is not parsed as a card' % t)
                i = run(w, 'card_int', lambda h: [q.value.vs[ok][0]])
                if not i.value.is_const:
                    raise Unsupported('integer of a parsed card')
                if i.value.data != oracle.card_int(r, oracle.SUITS[s]):
                    raise Broken(w.where('card_from_str'), 'the card parsed from %r has the integer %#x' % (t, i.value.data))
                n += 1
        return n
    x.ob('parsed cards', 'the card parsed from each of the 52 names has the documented integer', parsed)

    def dealt():
        deck = deck_items(w)
        n = 0
        vals = []
        for c in deck:
            i = run(w, 'card_int', lambda h: [c])
            if not i.value.is_const:
                raise Unsupported('integer of a dealt card')
            vals.append(i.value.data)
        want = set(oracle.card_int(r, s) for r in range(13) for s in oracle.SUITS)
        bad = [v for v in vals if v not in want]
        if bad:
            raise Broken(w.where('deck_vec'), 'the generated deck holds a card with the integer %#x' % bad[0])
        return len(vals)
    x.ob('dealt cards', 'every card of a generated deck has the documented integer', dealt)


# ------------------------------------------------------------------ parsing specification
def parse_spec(w, root, cs, tail=None):
    """Expected Result of parsing the text made of the characters cs (+ unknown tail)."""
    ty = w.retty(root)
    ok, er = ok_err(w, root)
    ety = w.P.types[ty]['variants'][er]['fields'][0]['ty']
    text = concat([chrterm(c) for c in cs] + ([tail] if tail is not None else []))
    L, R, S = (vnum(w, ety, n) for n in ('InvalidLength', 'InvalidRank', 'InvalidSuit'))

    def payload(var, c=None):
        fs = w.P.types[ety]['variants'][var]['fields']
        return tuple(Str(text) if f['name'] == 'original_input' else c if f['name'] == 'incorrect_char' else _unknown(f, ety) for f in fs)

    if len(cs) != 2 or tail is not None:
        e = Enum(const(L, VIDX), {L: payload(L)}, ety)
        return Enum(const(er, VIDX), {er: (e,)}, ty), 'length'
    return two_char_spec(w, ty, ety, cs, payload, (L, R, S)), 'two'


def _unknown(f, ety):
    raise Broken('ParseCardError', 'the error has an unknown field %s' % f['name'])


def two_char_spec(w, ty, ety, cs, payload, LRS):
    L, R, S = LRS
    ok, er = vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')
    rp = charset(cs[0], oracle.RANK_CHARS)
    sp = charset(cs[1], ''.join(oracle.SUIT_CHARS[s] for s in oracle.SUITS))
    rok, sok = lt(rp, usz(13)), lt(sp, usz(4))
    e = Enum(ite(rok, const(S, VIDX), const(R, VIDX)), {R: payload(R, cs[0]), S: payload(S, cs[1])}, ety)
    dr, ds = next(iter(cs[0].dims)), next(iter(cs[1].dims))
    # the card, over the two character dimensions (meaningful only where both are accepted)
    pos = lambda t, d, m: np.minimum(t.data[1] if not t.is_const else np.full(d.size, t.data), m)
    card = w.card((dr, pos(rp, dr, 12)), (ds, pos(sp, ds, 3)))
    return Enum(ite(land(rok, sok), const(ok, VIDX), const(er, VIDX)), {ok: (card,), er: (e,)}, ty)


def check_parse(w, root, args, cs, tail=None, spec=None):
    q = run(w, root, args)
    want = spec if spec is not None else parse_spec(w, root, cs, tail)[0]
    return check_result(w, q.value, want, w.where(root))


def check_result(w, got, want, where):
    """Got and want: Result<Card, ParseCardError> values; says which part is wrong."""
    ty = want.ty
    ok, er = vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')
    if not isinstance(got, Enum):
        raise Unsupported('result %r' % (got,))
    never(land(eq(want.disc, const(ok, VIDX)), lnot(eq(got.disc, const(ok, VIDX)))), where, 'a valid card text is refused', w)
    never(land(eq(want.disc, const(er, VIDX)), lnot(eq(got.disc, const(er, VIDX)))), where, 'an invalid text is accepted', w)
    if ok in want.vs and ok in got.vs:
        never(land(eq(want.disc, const(ok, VIDX)), differ(got.vs[ok][0], want.vs[ok][0])), where, 'the text gives the wrong card', w)
    if er in want.vs:
        g = eq(want.disc, const(er, VIDX))
        a, b = got.vs[er][0], want.vs[er][0]
        never(land(g, lnot(eq(a.disc, b.disc))), where, 'the error names the wrong rule', w)
        names = w.P.types[b.ty]['variants']
        for k in b.vs:
            gk = land(g, eq(b.disc, const(k, VIDX)))
            if gk is FALSE:
                continue
            for f, p, q in zip(names[k]['fields'], a.vs.get(k, ()), b.vs[k]):
                never(land(gk, differ(p, q)), where, 'the %s of %s is wrong' % (f['name'], names[k]['name']), w)


def over_chars(cs, f):
    """f over all characters at once; where that is too coarse, over each combination of character classes."""
    try:
        f(cs)
        return ''
    except Unsupported:
        if not cs:
            raise
    return 'in %d combinations of character classes: ' % by_class([next(iter(c.dims)).name for c in cs], f)


LONGER = ['2c2c', '2c  ', ' 2c ', '  2c', '10cc', '2c\n\n', '\u26602\u2660c', '2\u26602c', 'AsKs', '2cc2', '22cc', 'As\u0301\u0301', '    ', '2c,,',
          '2 c ', '[ 2\u2663 ]', '2c3c4', '2c3c4d', '2c' * 8, 'ace of spades', '10 of clubs', '2c' + ' ' * 30]


def C04(x):
    w = x.w
    c = [charof('c%d' % i) for i in range(4)]
    for root in ('card_from_str', 'card_parse'):
        how = 'Card::from_str' if root == 'card_from_str' else 'str::parse'
        for n in range(4):
            def f(n=n, root=root):
                def go(cs):
                    check_parse(w, root, lambda h: [StrRef(concat([chrterm(k) for k in cs]))], cs)
                return over_chars(c[:n], go) + '%d strings' % (len(CHARS) ** n)
            x.ob('%s of %d characters' % (how, n), 'result for every string of %d Unicode characters equals the documented one' % n, f)

        def g(root=root):
            cs = c[:3]
            tail = sym('the rest', 'str')
            try:
                check_parse(w, root, lambda h: [StrRef(concat([chrterm(k) for k in cs] + [tail]))], cs, tail)
            except Unsupported as e:
                err = e
                # not decided for every text: particular ones may still settle it the other way
                for s in LONGER:
                    ks = [const(ord(k), 'char') for k in s]
                    try:
                        check_parse(w, root, lambda h: [StrRef(sconst(s))], ks)
                    except Broken as b:
                        b.what += ' [%r]' % s
                        raise
                raise err
            return 'every string of three or more characters'
        x.ob('%s of longer text' % how, 'three characters followed by any text: a length error with the whole input', g)


HINTS = ((0, 0), (0, 2), (1, 1), (100, None), (100, 100))


def C05(x):
    w = x.w
    c = [charof('c%d' % i) for i in range(2)]

    def chars():
        root = 'card_try_from_chars'
        need(w, root)
        ty = w.retty(root)
        er = vnum(w, ty, 'Err')
        ety = w.P.types[ty]['variants'][er]['fields'][0]['ty']
        L, R, S = (vnum(w, ety, n) for n in ('InvalidLength', 'InvalidRank', 'InvalidSuit'))

        def payload(var, ch=None):
            return tuple(Str(chrterm(ch)) if f['name'] == 'original_input' else ch if f['name'] == 'incorrect_char' else _unknown(f, ety)
                         for f in w.P.types[ety]['variants'][var]['fields'])
        want = two_char_spec(w, ty, ety, c, payload, (L, R, S))
        q = run(w, root, lambda h: c[:2])
        check_result(w, q.value, want, w.where(root))
        return '%d pairs of characters' % (len(CHARS) ** 2)
    x.ob('two characters', 'try_from_chars over all pairs of characters: same cards and blamed characters as parsing, input quoted as the blamed character', chars)

    # element-wise parsing, over items that cover accepted and refused names
    pal = lambda name, s: dimvar(Dim(name, len(s), label=lambda i, s=s: s[i]), [ord(k) for k in s], 'char')

    def items(k):
        out = []
        for i in range(min(k, 3)):
            out.append((pal('first%d' % i, '2TAx'), pal('second%d' % i, 'csy')))
        return [out[i % 3] for i in range(k)]
    longer = long_sizes(x, lambda p: 'arse' in p and 'rror' not in p)
    if not x.thorough:
        longer = longer[-2:]
    long = longer + [n for n in [300] if n not in longer]      # beyond what a byte counts
    texts = lambda it: [concat([chrterm(a), chrterm(b)]) for a, b in it]

    def spec(w, it, ty):
        er = vnum(w, ty, 'Err')
        ety = w.P.types[ty]['variants'][er]['fields'][0]['ty']
        L, R, S = (vnum(w, ety, n) for n in ('InvalidLength', 'InvalidRank', 'InvalidSuit'))
        out = []
        for a, b in it:
            t = concat([chrterm(a), chrterm(b)])

            def payload(var, ch=None, t=t):
                return tuple(Str(t) if f['name'] == 'original_input' else ch for f in w.P.types[ety]['variants'][var]['fields'])
            out.append(small_spec(w, ty, ety, a, b, payload, (L, R, S)))
        return out

    def seq(root, n, wrap=StrRef, front=lambda v: v):
        def f():
            need(w, root)
            it = items(n)
            q = run(w, root, lambda h: [Vec(Arr([wrap(t) for t in texts(it)]))])
            ty = w.retty('card_from_str')
            want = spec(w, it, ty)
            got = content(q.value)
            if len(got) != n:
                raise Broken(w.where(root), 'a sequence of %d texts gives %d results' % (n, len(got)))
            for i, (a, b) in enumerate(zip(got, want)):
                try:
                    check_result(w, a, b, w.where(root))
                except Broken as e:
                    raise Broken(e.where, 'result %d of the sequence: %s' % (i, e.what))
            return '%d sequences of %d texts' % (12 ** min(n, 3), n)
        return f
    for root in ('parse_iter_vec', 'parse_iter_strings', 'pi_fold', 'pi_for'):
        for n in [0, 1, 3] + long:
            x.ob('%s of %d' % (root, n), 'one result per text, in order, errors included', seq(root, n, Str if root == 'parse_iter_strings' else StrRef))

    def unknown_number():
        k = 0
        for n in [0, 1, 3] + longer:
            for less, more in HINTS:
                for root in ('pi_vague', 'pi_vague_for'):
                    it = items(n)
                    q = run(w, root, lambda h: [Iter(seqs.HintSeq([(TRUE, StrRef(t)) for t in texts(it)], less, more), 0, n)])
                    many(w, q.value, spec(w, it, w.retty('card_from_str')), w.where(root))
                    k += 1
        return k
    x.ob('texts of unknown number', 'one result per text, in order, whatever valid size hint the texts give', unknown_number)

    def one():
        cs = [charof('p%d' % i) for i in range(2)]
        q = run(w, 'parse_iter_next', lambda h: [StrRef(concat([chrterm(k) for k in cs]))])
        v = q.value
        some = vnum(w, w.retty('parse_iter_next'), 'Some')
        if not v.disc.is_const or v.disc.data != some:
            raise Broken(w.where('parse_iter_next'), 'a sequence of one text gives no result')
        check_result(w, v.vs[some][0], parse_spec(w, 'card_from_str', cs)[0], w.where('parse_iter_next'))
        return '%d strings' % (len(CHARS) ** 2)
    x.ob('one element', 'the result for an element is the parse of that element, for every two-character text', one)

    def counted(n):
        # every way of taking all items is offered the same ones
        def f():
            for root in ('pi_for_each', 'pi_extend'):
                if root not in w.roots:
                    raise Missing(root)
                it = items(n)
                q = run(w, root, lambda h: [Vec(Arr([StrRef(t) for t in texts(it)]))])
                want = spec(w, it, w.retty('card_from_str'))
                many(w, q.value, want, w.where(root))
            return n
        return f
    for n in [0, 1, 3] + longer:
        x.ob('other ways of consuming %d' % n, 'for_each and extending take every result in order', counted(n))

    def hint(n):
        def f():
            it = items(n)
            q = run(w, 'pi_hint', lambda h: [Vec(Arr([StrRef(t) for t in texts(it)]))])
            h0, first, h1, rest = q.value.fields
            want = spec(w, it, w.retty('card_from_str'))
            where = w.where('pi_hint')
            lower(w, h0, n, where)
            lower(w, h1, max(n - 1, 0), where)
            opt(w, first, want[0] if n else None, where)
            many(w, rest, want[1:], where)
            return n
        return f
    for n in [0, 1, 3] + longer:
        x.ob('size hint of %d' % n, 'the size hint bounds the number of results, before and after taking one', hint(n))

    def count():
        for n in [0, 1, 3] + long:
            q = run(w, 'pi_count', lambda h: [Vec(Arr([StrRef(t) for t in texts(items(n))]))])
            never(lnot(eq(q.value, usz(n))), w.where('pi_count'), 'counting the results of %d texts' % n, w)
        return 3
    x.ob('count', 'as many results as texts', count)

    def last():
        for n in [0, 1, 3] + long:
            it = items(n)
            q = run(w, 'pi_last', lambda h: [Vec(Arr([StrRef(t) for t in texts(it)]))])
            opt(w, q.value, spec(w, it, w.retty('card_from_str'))[-1] if n else None, w.where('pi_last'))
        return 3
    x.ob('last', 'the last result is that of the last text', last)

    def nth():
        for n in [0, 1, 3] + longer:
            it = items(n)
            q = run(w, 'pi_nth', lambda h: [Vec(Arr([StrRef(t) for t in texts(it)]))])
            want = spec(w, it, w.retty('card_from_str'))
            opt(w, q.value.fields[0], want[1] if n > 1 else None, w.where('pi_nth'))
            many(w, q.value.fields[1], want[2:], w.where('pi_nth'))
        return 3
    x.ob('nth', 'skipping results keeps the order', nth)

    def collected(root, n, wrap=StrRef):
        def f():
            it = items(n)
            q = run(w, root, lambda h: [Vec(Arr([wrap(t) for t in texts(it)]))])
            ty = w.retty('card_from_str')
            ok, er = vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')
            want = spec(w, it, ty)
            rty = w.retty(root)
            rok, rer = vnum(w, rty, 'Ok'), vnum(w, rty, 'Err')
            good = land(*[eq(v.disc, const(ok, VIDX)) for v in want]) if want else TRUE
            where = w.where(root)
            never(land(good, lnot(eq(q.value.disc, const(rok, VIDX)))), where, 'collecting valid texts fails', w)
            never(land(lnot(good), lnot(eq(q.value.disc, const(rer, VIDX)))), where, 'collecting an invalid text succeeds', w)
            cs = content_when(q.value.vs[rok][0], good)
            if len(cs) != n:
                raise Broken(where, 'collecting %d valid texts gives %d cards' % (n, len(cs)))
            for a, b in zip(cs, want):
                never(land(good, differ(a, b.vs[ok][0])), where, 'a collected card is wrong or out of place', w)
            before = TRUE
            for b in want:
                bad = eq(b.disc, const(er, VIDX))
                if rer in q.value.vs:
                    never(land(before, bad, differ(q.value.vs[rer][0], b.vs[er][0])), where, 'the collected error is not the first one', w)
                before = land(before, lnot(bad))
            return '%d sequences of %d texts' % (12 ** min(n, 3), n)
        return f
    for root in ('pi_try', 'parse_iter_try', 'pi_try_box', 'pi_try_strings'):
        for n in [0, 1, 2, 3] + long:
            x.ob('%s of %d' % (root, n), 'all cards in order, or the first error', collected(root, n, Str if root == 'pi_try_strings' else StrRef))

    # the adaptor over any iterator
    def adapted(n):
        need(w, 'adaptor_fold')
        ty = w.argty('adaptor_fold', 0)
        T = w.P.types[ty]
        if len(T['variants'][0]['fields']) != 1:
            raise Unsupported('the layout of the adaptor is not known')
        xs = []
        for i in range(n):
            d = dimvar(Dim('kind%d' % i, 2), None, VIDX)
            xs.append(Enum(d, {0: (sym('o%d' % i, ('u', 8)),), 1: (sym('e%d' % i, ('u', 8)),)}, None))
        return xs, (lambda: Agg([Iter(seqs.ListSeq([(TRUE, v) for v in xs]), 0, n)], ty))

    def adaptor_end(root, end):
        def f():
            for n in (0, 1, 3):
                xs, mk_ = adapted(n)
                box = {}

                def args(h):
                    box['p'] = h.ref(mk_())
                    return [box['p']]
                q = run(w, root, args)
                where = w.where(root)
                some = vnum(w, w.retty(root), 'Some')
                if not q.value.disc.is_const:
                    raise Unsupported('an adaptor that may or may not yield')
                if (q.value.disc.data == some) != (n > 0):
                    raise Broken(where, 'over %d items the adaptor %s' % (n, 'yields nothing' if n else 'yields something'))
                if n:
                    same_value(q.value.vs[some][0], xs[0 if end == 'front' else -1], where, 'the adaptor yields the wrong item', w)
                it = q.state.mem[box['p'].alloc].fields[0]
                want = (1, n) if end == 'front' else (0, n - 1)
                if n and ((it.i, it.j) != want):
                    raise Broken(where, 'the adaptor leaves items %s..%s of %d' % (it.i, it.j, n))
            return 3
        return f
    x.ob('adaptor from the front', 'over any iterator of results, next() yields the next item unchanged and consumes one', adaptor_end('adaptor_next', 'front'))
    x.ob('adaptor from the back', 'next_back() yields the last item unchanged and consumes one', adaptor_end('adaptor_next_back', 'back'))

    def adaptor_sizes():
        for n in [0, 1, 3] + longer:
            xs, mk_ = adapted(n)
            q = run(w, 'adaptor_size_hint', lambda h: [h.ref(mk_())])
            lower(w, q.value, n, w.where('adaptor_size_hint'), exact=True)
            q = run(w, 'adaptor_len', lambda h: [h.ref(mk_())])
            never(lnot(eq(q.value, usz(n))), w.where('adaptor_len'), 'the length of %d items is wrong' % n, w)
        return 6
    x.ob('adaptor sizes', 'size_hint() and len() are those of the inner iterator', adaptor_sizes)

    def adaptor_all(root, order):
        def f():
            need(w, root)
            for n in [0, 1, 2, 3] + longer:
                xs, mk_ = adapted(n)
                q = run(w, root, lambda h: [mk_()])
                many(w, q.value, order(xs), w.where(root))
            return 3
        return f
    x.ob('adaptor fold', 'folding visits every item once, in order', adaptor_all('adaptor_fold', lambda l: l))
    x.ob('adaptor for_each', 'for_each visits every item once, in order', adaptor_all('adaptor_for_each', lambda l: l))
    x.ob('adaptor reversed', 'reversing visits every item once, backwards', adaptor_all('adaptor_rev', lambda l: l[::-1]))
    x.ob('adaptor backwards', 'taking from the back until the end visits every item once, backwards', adaptor_all('adaptor_rev_next', lambda l: l[::-1]))
    x.ob('adaptor from both ends', 'taking from both ends in turn visits every item once', adaptor_all('adaptor_ends', lambda l: [l[i // 2] if i % 2 == 0 else l[len(l) - 1 - i // 2] for i in range(len(l))]))

    def vague(n, root, less, more, *rest):
        """The root over n items whose number the inner iterator does not tell."""
        need(w, root)
        ty = w.argty('adaptor_fold', 0)
        if len(w.P.types[ty]['variants'][0]['fields']) != 1:
            raise Unsupported('the layout of the adaptor is not known')
        xs, _ = adapted(n)
        a = Agg([Iter(seqs.HintSeq([(TRUE, v) for v in xs], less, more), 0, n)], w.argty(root, 0))
        return xs, run(w, root, lambda h: [a] + list(rest)).value

    def same_opt(v, want, where):
        if not v.disc.is_const:
            raise Unsupported('an item that may or may not be there')
        fs = v.vs[v.disc.data]
        if (len(fs) > 0) != (want is not None):
            raise Broken(where, 'an item is %s' % ('missing' if want is not None else 'made up'))
        if want is not None:
            same_value(fs[0], want, where, 'the wrong item', w)

    VAGUE = ['collect', 'for', 'for_each', 'extend', 'fold', 'rev', 'rfold', 'skip', 'take']
    VAGUE += ['all', 'any', 'find', 'find_map', 'position', 'try_each', 'reduced', 'cmp', 'max', 'split', 'ref']

    def vague_all():
        k = 0
        for n in [0, 1, 3] + longer:
            for less, more in HINTS:
                def go(root, *rest):
                    nonlocal k
                    k += 1
                    return vague(n, root, less, more, *rest) + (w.where(root),)
                need(w, 'vague_hint')
                xs, _ = adapted(n)
                ty = w.P.types[w.argty('vague_hint', 0)]['ty']
                v = Agg([Iter(seqs.HintSeq([(TRUE, t) for t in xs], less, more), 0, n)], ty)
                lower(w, run(w, 'vague_hint', lambda h: [h.ref(v)]).value, n, w.where('vague_hint'))
                xs, v, at = go('vague_count')
                never(lnot(eq(v, usz(n))), at, 'counting %d items' % n, w)
                xs, v, at = go('vague_last')
                same_opt(v, xs[-1] if n else None, at)
                xs, v, at = go('vague_reduce')
                same_opt(v, xs[0] if n else None, at)
                for root in VAGUE:
                    ys, v, at = go('vague_' + root)
                    many(w, v, {'rev': ys[::-1], 'rfold': ys[::-1], 'skip': ys[1:], 'take': ys[:2]}.get(root, ys), at)
                for root in ('next', 'back'):
                    xs, v, at = go('vague_' + root)
                    same_opt(v.fields[0], None if not n else xs[0] if root == 'next' else xs[-1], at)
                    lower(w, v.fields[1], max(n - 1, 0), at)
                    many(w, v.fields[2], xs[1:] if root == 'next' else xs[:-1], at)
        return k
    x.ob('adaptor over items of unknown number', 'counting, last, collecting, folding and taking from either end, whatever valid size hint the inner iterator gives',
         vague_all)

    def skipping():
        k = 0
        cs = set()
        for p in x.poly['fns']:
            if p.get('body') is not None and 'ParseToIter' in p['path']:
                int_constants(p['body'], cs)
        steps = {0, 1, 2, 3, 4, 5} | {c + d for c in cs for d in (-1, 0, 1)}
        for n in [0, 1, 3, 7] + longer:
            for j in sorted({j for j in steps | {n - 1, n, n + 1} if 0 <= j <= n + 1}):
                for root in ('vague_nth', 'vague_nth_back', 'adaptor_nth', 'adaptor_nth_back'):
                    if root.startswith('vague'):
                        xs, v = vague(n, root, 1, 3, usz(j))
                    else:
                        need(w, root)
                        xs, mk_ = adapted(n)
                        v = run(w, root, lambda h: [mk_(), usz(j)]).value
                    at = w.where(root)
                    back = root.endswith('back')
                    same_opt(v.fields[0], None if j >= n else xs[n - 1 - j] if back else xs[j], at)
                    rest = xs[:max(0, n - 1 - j)] if back else xs[j + 1:]
                    if len(v.fields) == 3:
                        never(lnot(eq(v.fields[1], usz(len(rest)))), at, 'the length after skipping %d of %d items is wrong' % (j, n), w)
                    many(w, v.fields[-1], rest, at)
                    k += 1
        return k
    x.ob('adaptor skipping', 'nth and nth_back from either end', skipping)

    def adaptor_try(root='adaptor_try_collect', hint=None):
        for n in (0, 1, 3):
            if hint is None:
                xs, mk_ = adapted(n)
                got_ = run(w, root, lambda h: [mk_()]).value
            else:
                xs, got_ = vague(n, root, *hint)
            where = w.where(root)
            ty = w.retty(root)
            ok, er = vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')
            good = land(*[eq(v.disc, const(0, VIDX)) for v in xs]) if xs else TRUE
            never(lnot(eq(eq(got_.disc, const(ok, VIDX)), good)), where, 'collecting succeeds or fails when it should not', w)
            cs = content_when(got_.vs[ok][0], good)
            if len(cs) != n:
                raise Broken(where, 'collecting %d items gives %d' % (n, len(cs)))
            for a, b in zip(cs, xs):
                if a is not b.vs[0][0]:
                    never(land(good, differ(a, b.vs[0][0])), where, 'a collected item is wrong or out of place', w)
            before = TRUE
            for b in xs:
                bad = eq(b.disc, const(1, VIDX))
                c_ = land(before, bad)
                got = got_.vs[er][0]
                leaf = restrict_true(got, c_)
                if leaf is not b.vs[1][0]:
                    never(land(c_, differ(leaf, b.vs[1][0])), where, 'the collected error is not the first one', w)
                before = land(before, lnot(bad))
        return 3
    x.ob('adaptor collecting', 'over any items: all the values in order, or the first error', adaptor_try)
    for root in ('vague_try', 'vague_result'):
        x.ob('adaptor collecting, %s' % root, 'over any items of unknown number: all the values in order, or the first error',
             lambda root=root: [adaptor_try(root, h) for h in HINTS] and 3)


def restrict_true(t, c):
    """Simplify a gated term under a condition, when its gates are decided by it."""
    while t.op == 'ite':
        g = t.args[0]
        if find(land(c, lnot(g))) is None:
            t = t.args[1]
        elif find(land(c, g)) is None:
            t = t.args[2]
        else:
            return t
    return t


def small_spec(w, ty, ety, a, b, payload, LRS):
    L, R, S = LRS
    ok, er = vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')
    da, db = next(iter(a.dims)), next(iter(b.dims))
    ra = np.array([oracle.RANK_CHARS.find(chr(int(v))) for v in a.data[1]])
    suits = [oracle.SUIT_CHARS[s] for s in oracle.SUITS]
    sb = np.array([suits.index(chr(int(v))) if chr(int(v)) in suits else -1 for v in b.data[1]])
    rok, sok = tab([da], ra >= 0, 'bool'), tab([db], sb >= 0, 'bool')
    card = w.card((da, np.maximum(ra, 0)), (db, np.maximum(sb, 0)))
    e = Enum(ite(rok, const(S, VIDX), const(R, VIDX)), {R: payload(R, a), S: payload(S, b)}, ety)
    return Enum(ite(land(rok, sok), const(ok, VIDX), const(er, VIDX)), {ok: (card,), er: (e,)}, ty)


def lower(w, hint, n, where, exact=False):
    lo, hi = hint.fields
    never(lt(usz(n), lo), where, 'the size hint promises more results than there are (%d)' % n, w)
    if exact:
        never(lnot(eq(lo, usz(n))), where, 'the lower size hint of %d items is wrong' % n, w)
    for k, fs in hi.vs.items():
        if fs:
            never(land(eq(hi.disc, const(k, VIDX)), lt(fs[0], usz(n))), where, 'the size hint allows fewer results than there are (%d)' % n, w)
    if exact and hi.disc.is_const and not hi.vs[hi.disc.data]:
        raise Broken(where, 'the upper size hint is lost')


def opt(w, got, want, where):
    """got: Option<Result<..>>; want: value or None"""
    if not got.disc.is_const:
        raise Unsupported('an optional result that may or may not be there')
    fs = got.vs[got.disc.data]
    if (len(fs) > 0) != (want is not None):
        raise Broken(where, 'a result is %s' % ('missing' if want is not None else 'made up'))
    if want is not None:
        check_result(w, fs[0], want, where)


def many(w, got, want, where):
    g = content(got)
    if len(g) != len(want):
        raise Broken(where, '%d items instead of %d' % (len(g), len(want)))
    for i, (a, b) in enumerate(zip(g, want)):
        if a is b:
            continue
        if isinstance(b, Enum) and b.ty is not None:
            check_result(w, a, b, where)
        else:
            same_value(a, b, where, 'item %d is wrong' % i, w)


# ------------------------------------------------------------------ C06
def C06(x):
    w = x.w
    r, s = Dim('rank', 13), Dim('suit', 4)
    names = np.array([[oracle.RANK_CHARS[i] + oracle.SUIT_CHARS[n] for n in oracle.SUITS] for i in range(13)], dtype=object)
    shown = np.array([['[ %s%s ]' % (oracle.RANK_CHARS[i], oracle.SUIT_PRETTY[n]) for n in oracle.SUITS] for i in range(13)], dtype=object)

    def text(root, by_ref, want):
        def f():
            c = w.card(r, s)
            q = run(w, root, lambda h: [h.ref(c) if by_ref else c])
            return expect(table(q.value.term, [r, s]), want, [r, s], w.where(root), 'the text of the card is wrong')
        return f
    x.ob('short text', 'rank_suit_string() of each of the 52 cards', text('card_string', False, names))
    x.ob('display', 'to_string() of each of the 52 cards', text('card_display', True, shown))

    def char(root, val, d, want):
        def f():
            q = run(w, root, lambda h: [val(d)])
            return expect(table(q.value, [d]), np.array([ord(k) for k in want]), [d], w.where(root), 'the character is wrong')
        return f
    x.ob('rank characters', 'as_char() of the 13 ranks', char('rank_char', w.rank, r, oracle.RANK_CHARS))
    x.ob('suit characters', 'as_char() of the 4 suits', char('suit_char', w.suit, s, [oracle.SUIT_CHARS[n] for n in oracle.SUITS]))
    x.ob('suit symbols', 'as_pretty_char() of the 4 suits', char('suit_pretty_char', w.suit, s, [oracle.SUIT_PRETTY[n] for n in oracle.SUITS]))

    def disp(root, val, d, want):
        def f():
            q = run(w, root, lambda h: [h.ref(val(d))])
            return expect(table(q.value.term, [d]), np.array(list(want), dtype=object), [d], w.where(root), 'the displayed text is wrong')
        return f
    x.ob('rank display', 'to_string() of the 13 ranks', disp('rank_display', w.rank, r, oracle.RANK_CHARS))
    x.ob('suit display', 'to_string() of the 4 suits', disp('suit_display', w.suit, s, [oracle.SUIT_PRETTY[n] for n in oracle.SUITS]))

    def from_char(root, chars, order, n):
        def f():
            c = charof('c')
            d = next(iter(c.dims))
            q = run(w, root, lambda h: [c])
            ty = w.retty(root)
            ok, er = vnum(w, ty, 'Ok'), vnum(w, ty, 'Err')
            p = charset(c, chars)
            good = lt(p, usz(n))
            where = w.where(root)
            never(lnot(eq(eq(q.value.disc, const(ok, VIDX)), good)), where, 'the set of accepted characters is wrong', w)
            want = tab([d], np.array(order + [order[0]])[p.data[1]], VIDX)
            never(land(good, lnot(eq(q.value.vs[ok][0].disc, want))), where, 'the character is converted to the wrong value', w)
            never(land(lnot(good), lnot(eq(q.value.vs[er][0], c))), where, 'the error does not give back the character', w)
            return '%d characters' % len(CHARS)
        return f
    x.ob('rank from character', 'TryFrom<char> for Rank over all characters', lambda: from_char('rank_try_from', oracle.RANK_CHARS, w.rank_order(), 13)())
    x.ob('suit from character', 'TryFrom<char> for Suit over all characters', lambda: from_char('suit_try_from', ''.join(oracle.SUIT_CHARS[n] for n in oracle.SUITS), w.suit_order(), 4)())

    def trip():
        c = w.card(r, s)
        q = run(w, 'card_string', lambda h: [c])
        texts = table(q.value.term, [r, s])
        ok, er = ok_err(w, 'card_from_str')
        for i in range(13):
            for j in range(4):
                p = run(w, 'card_from_str', lambda h: [StrRef(sconst(texts[i, j]))])
                if not p.value.disc.is_const:
                    raise Unsupported('parsing a given text')
                if p.value.disc.data != ok:
                    raise Broken(w.where('card_string'), 'the text %r of a card is not accepted by the parser' % texts[i, j])
                same_value(p.value.vs[ok][0], w.card(i, j), w.where('card_string'), 'the text %r parses back to another card' % texts[i, j], w)
        return 52
    x.ob('round trip', 'parsing the short text of each of the 52 cards gives the card back', trip)

    def char_trip(root_to, root_from, val, d):
        def f():
            q = run(w, root_to, lambda h: [val(d)])
            p = run(w, root_from, lambda h: [q.value])
            ok = vnum(w, w.retty(root_from), 'Ok')
            never(lnot(eq(p.value.disc, const(ok, VIDX))), w.where(root_from), 'the own character is refused', w)
            never(lnot(eq(p.value.vs[ok][0].disc, val(d).disc)), w.where(root_from), 'the character converts back to another value', w)
            return d.size
        return f
    x.ob('rank character round trip', 'as_char() then TryFrom<char> is the identity', char_trip('rank_char', 'rank_try_from', w.rank, r))
    x.ob('suit character round trip', 'as_char() then TryFrom<char> is the identity', char_trip('suit_char', 'suit_try_from', w.suit, s))


# ------------------------------------------------------------------ C07
def ordering_array(w, v, dims):
    """Ordering value as -1, 0, 1 over dims."""
    names = [x['name'] for x in w.P.types[v.ty]['variants']] if v.ty is not None else ['Less', 'Equal', 'Greater']
    m = np.array([{'Less': -1, 'Equal': 0, 'Greater': 1}[n] for n in names])
    return m[table(v.disc, dims)]


def C07(x):
    w = x.w
    OPS = {'lt': lambda c: c < 0, 'le': lambda c: c <= 0, 'gt': lambda c: c > 0, 'ge': lambda c: c >= 0}

    def cards():
        cs, dims = free_cards(w, 2)
        g = np.indices((13, 4, 13, 4))
        return cs, dims, np.sign(g[0] - g[2])

    def ranks():
        a, b = Dim('r0', 13), Dim('r1', 13)
        g = np.indices((13, 13))
        return [(a, None, w.rank(a)), (b, None, w.rank(b))], [a, b], np.sign(g[0] - g[1])

    def total(root, dom):
        def f():
            cs, dims, want = dom()
            q = run(w, root, lambda h: [h.ref(cs[0][2]), h.ref(cs[1][2])])
            return expect(ordering_array(w, q.value, dims), want, dims, w.where(root), 'the comparison is not that of the ranks')
        return f

    def partial(root, dom):
        def f():
            cs, dims, want = dom()
            q = run(w, root, lambda h: [h.ref(cs[0][2]), h.ref(cs[1][2])])
            some = vnum(w, w.retty(root), 'Some')
            never(lnot(eq(q.value.disc, const(some, VIDX))), w.where(root), 'two values do not compare', w)
            return expect(ordering_array(w, q.value.vs[some][0], dims), want, dims, w.where(root), 'the comparison is not that of the ranks')
        return f

    def op(root, dom, k):
        def f():
            cs, dims, want = dom()
            q = run(w, root, lambda h: [h.ref(cs[0][2]), h.ref(cs[1][2])])
            return expect(table(q.value, dims), OPS[k](want), dims, w.where(root), 'the operator does not follow the ranks')
        return f
    x.ob('cards, total', 'cmp over all 52 x 52 pairs', total('card_cmp', cards))
    x.ob('cards, partial', 'partial_cmp over all 52 x 52 pairs', partial('card_partial_cmp', cards))
    for k in OPS:
        x.ob('cards, ' + k, 'operator over all 52 x 52 pairs', op('card_' + k, cards, k))
    x.ob('ranks, total', 'cmp over all 13 x 13 pairs', total('rank_cmp', ranks))
    x.ob('ranks, partial', 'partial_cmp over all 13 x 13 pairs', partial('rank_partial_cmp', ranks))
    for k in OPS:
        x.ob('ranks, ' + k, 'operator over all 13 x 13 pairs', op('rank_' + k, ranks, k))

    def pick(root, dom, sign, what):
        def f():
            cs, dims, want = dom()
            q = run(w, root, lambda h: [cs[0][2], cs[1][2]])
            a, b = differ(q.value, cs[0][2]), differ(q.value, cs[1][2])
            da, db = table(a, dims), table(b, dims)
            good = np.where(want * sign > 0, ~da, np.where(want * sign < 0, ~db, ~da | ~db))
            return expect(good, np.ones(want.shape, dtype=bool), dims, w.where(root), 'the wrong one of two %s is taken' % what)
        return f
    for root, dom, what in (('card', cards, 'cards'), ('rank', ranks, 'ranks')):
        x.ob(what + ', max', 'max gives one of the two, of the higher rank', pick(root + '_max', dom, 1, what))
        x.ob(what + ', min', 'min gives one of the two, of the lower rank', pick(root + '_min', dom, -1, what))

    def req():
        cs, dims, want = ranks()
        q = run(w, 'rank_eq', lambda h: [h.ref(cs[0][2]), h.ref(cs[1][2])])
        return expect(table(q.value, dims), want == 0, dims, w.where('rank_eq'), 'rank equality is wrong')
    x.ob('ranks, eq', '== over all 13 x 13 pairs', req)


# ------------------------------------------------------------------ C08, C09
def deck_items(w):
    q = w.cached('deck', lambda: run(w, 'deck_vec', []))
    return content(q.value)


def card_set(w, items, where):
    """Check that 52 constant card values are the 52 cards; returns their (rank, suit) order."""
    r, s, c = w.free_card(0)
    paths = columns(c)
    key = {}
    for i in range(13):
        for j in range(4):
            k = tuple(const_of(t, {r: i, s: j}) for _, _, t in paths)
            key[k] = (i, j)
    got = []
    for n, v in enumerate(items):
        cv = columns(v)
        k = []
        for _, _, t in cv:
            if not t.is_const:
                raise Unsupported('card %d of the deck is not determined' % n)
            k.append(t.data)
        p = key.get(tuple(k))
        if p is None:
            raise Broken(where, 'item %d of the deck is not a card (%s)' % (n, k))
        got.append(p)
    seen = {}
    for n, p in enumerate(got):
        if p in seen:
            raise Broken(where, 'the card %s is at places %d and %d' % (hand_text([p]), seen[p], n))
        seen[p] = n
    missing = [p for p in itertools.product(range(13), range(4)) if p not in seen]
    if missing:
        raise Broken(where, 'the deck lacks %s' % hand_text(missing))
    return got


def const_of(t, env):
    t = restrict(t, env)
    t = force(t) if not t.is_const else t
    if not t.is_const:
        raise Unsupported('a constant')
    return t.data


def C08(x):
    w = x.w

    def cards():
        from checks_sys import hash_order
        q = w.cached('deck', lambda: hash_order(x, 'deck_vec', lambda: run(w, 'deck_vec', []), 'deck'))
        c = card_set(w, content(q.value), w.where('deck_vec'))
        return 'order: ' + hand_text(c)
    x.ob('52 cards', 'the sequence generate() yields: each of the 52 cards exactly once', cards)

    def fixed():
        q = w.cached('deck', lambda: run(w, 'deck_vec', []))
        if q.effects:
            raise Broken(w.where('deck_vec'), 'generating a deck depends on %s' % (q.effects,))
        for n, v in enumerate(content(q.value)):
            for _, _, t in columns(v):
                if not t.is_const:
                    raise Broken(w.where('deck_vec'), 'card %d of the deck is not the same every time' % n)
        if x.start is not None:
            p = run(x.w0, 'deck_vec', [])
            for n, (a, b) in enumerate(zip(content(p.value), content(q.value))):
                if [t for _, _, t in columns(a)] != [t for _, _, t in columns(b)]:
                    raise Broken(w.where('deck_vec'), 'card %d of the deck is not that of the first one' % n)
        return 'no effects; every card is a constant'
    x.ob('fixed order', 'the sequence is a constant: it reads no state, randomness or environment', fixed)

    def count():
        q = run(w, 'deck_count', [])
        never(lnot(eq(q.value, usz(52))), w.where('deck_count'), 'counting a generated deck does not give 52', w)
        if q.effects:
            raise Broken(w.where('deck_count'), 'generating a deck depends on %s' % (q.effects,))
        return 52
    x.ob('ends', 'counting the sequence gives 52 (it ends)', count)
    drawn(x)


def drawn(x):
    """Taking cards from the sequence in other ways than all at once."""
    w = x.w
    deck = lambda: content(w.cached('deck', lambda: run(w, 'deck_vec', [])).value)
    cards = lambda n: tuple(range(0, n + 1, 7)) + (n - 1, n, n + 1)

    def same(got, want, at, what):
        if len(got) != len(want):
            raise Broken(at, '%s gives %d cards instead of %d' % (what, len(got), len(want)))
        for n, (a, b) in enumerate(zip(got, want)):
            if [t for _, _, t in columns(a)] != [t for _, _, t in columns(b)]:
                if any(not t.is_const for _, _, t in columns(a) + columns(b)):
                    raise Unsupported('a card that is not determined')
                raise Broken(at, '%s gives another card at place %d' % (what, n))

    def one(v, want, at, what):
        if not v.disc.is_const:
            raise Unsupported('whether there is a card')
        same([v.vs[v.disc.data][0]] if v.vs[v.disc.data] else [], [want] if want is not None else [], at, what)

    def all_of():
        for root, what in (('pull_each', 'taking the cards one by one'), ('pull_fold', 'for_each')):
            same(content(run(w, root, []).value), deck(), w.where(root), what)
        one(run(w, 'pull_last', []).value, deck()[-1], w.where('pull_last'), 'last()')
        return 3
    x.ob('one by one', 'taking the cards one by one, folding, or asking for the last one gives those cards in that order', all_of)

    def some():
        d = deck()
        for k in cards(len(d)):
            at = lambda i: d[i] if i < len(d) else None
            one(run(w, 'pull_nth', [usz(k)]).value, at(k), w.where('pull_nth'), 'nth(%d)' % k)
            same(content(run(w, 'pull_skip', [usz(k)]).value), d[k:], w.where('pull_skip'), 'skip(%d)' % k)
            if k > len(d):
                continue
            a, b = run(w, 'pull_parts', [usz(k)]).value.fields
            same(content(a) + content(b), d, w.where('pull_parts'), 'taking %d cards and then the rest' % k)
            if k + 1 < len(d):
                a, b, c = run(w, 'pull_after', [usz(k)]).value.fields
                one(a, d[k], w.where('pull_after'), 'nth(%d)' % k)
                one(b, d[k + 1], w.where('pull_after'), 'next() after nth(%d)' % k)
                same(content(c), d[k + 2:], w.where('pull_after'), 'the rest after nth(%d) and next()' % k)
        return '%d places' % len(cards(len(d)))
    x.ob('in parts', 'skipping cards, or taking some and then the rest, keeps the sequence', some)

    def hints():
        n = len(deck())
        lower(w, run(w, 'pull_hint', []).value, n, w.where('pull_hint'))
        for k in (1, 13, n - 1, n):
            lower(w, run(w, 'pull_hint_after', [usz(k)]).value, n - k, w.where('pull_hint_after'))
        return 5
    x.ob('size hint', 'the size hint bounds the number of cards left', hints)


def shuffling(w, root):
    box = {}

    def args(h):
        if root != 'deck_shuffled_with':
            return []
        box['p'] = h.ref(Opaque('rng'))
        return [box['p']]
    return run(w, root, args), box.get('p')


def drawn_steps(q):
    """The swaps with a drawn place, in order; None where something else happens to the deck between them."""
    out = []
    for e in q.effects:
        if e[0] == 'step':
            out.append(e[3] if isinstance(e[3], tuple) and e[1] is TRUE else None)
    return out if any(out) else []


def outcomes(steps):
    return math.prod(s[2] - s[1] for s in steps if s)


def complete(steps, n):
    """Whether the swaps contain a whole shuffle: every place i, in ascending or descending order, swapped with a place
    drawn from 0..=i (or every one from i..n). Each such sequence of n - 1 independent draws gives every ordering exactly once."""
    plans = []
    for a in ([(i, 0, i + 1) for i in range(1, n)], [(i, i, n) for i in range(n - 1)]):
        plans += [a, a[::-1]]
    steps = [s for s in steps if s is None or s[2] - s[1] != 1 or s[1] != s[0]]
    return any(steps[k:k + n - 1] in plans for k in range(len(steps) - n + 2))


def C28(x):
    """Every ordering equally likely: the deck goes through a whole shuffle (or is proved to), and what follows does not look at the cards."""
    w = x.w

    def dealt(root):
        """Definite orderings in place of the shuffle's: one that two of them share, or that is redrawn, is a violation."""
        models.DEALT = None
        deck = content(w.cached('deck', lambda: run(w, 'deck_vec', [])).value)
        key = lambda vs: tuple(const_of(t, {}) for v in vs for _, _, t in columns(v))
        rots = [deck[k:] + deck[:k] for k in range(52)]
        todo = rots + [rots[0][:k] + [rots[0][k + 1], rots[0][k]] + rots[0][k + 2:] for k in range(51)]
        got, again = {}, []
        end = time.time() + 60
        others = [rots[5 * k % 52] for k in range(52)]
        while todo and len(got) < 160 and time.time() < end:
            d = todo.pop(0)
            models.DEALT = [d] + [o for o in others if key(o) != key(d)]
            other = models.DEALT
            try:
                q, _ = shuffling(w, root)
                r = content(q.value)
                k = key(r)
            except (Unsupported, Diverged):
                continue
            finally:
                models.DEALT = None
            if any(e[0] == 'step' and e[3] != 'fixed' for e in q.effects):
                continue
            m = sum(e[0] == 'dealt' for e in q.effects)
            if m > 1 and k == key(other[m - 1]):
                again.append(d)
            elif m == 1:
                if k in got and got[k] != key(d):
                    raise Broken(w.where(root), 'two orderings the shuffle may give are both turned into one that starts with %s' % text(r[:3]))
                got[k] = key(d)
                if k != key(d) and len(todo) < 120:
                    todo.append(r)
        if again and got:
            raise Broken(w.where(root), 'an ordering that starts with %s is shuffled again, others are not' % text(again[0][:3]))

    def text(vs):
        name = {}
        r, s, c = w.free_card(0)
        for i in range(13):
            for j in range(4):
                name[tuple(const_of(t, {r: i, s: j}) for _, _, t in columns(c))] = (i, j)
        return hand_text([name[tuple(const_of(t, {}) for _, _, t in columns(v))] for v in vs])

    def confined(steps, where):
        """A place that a card at some other place can never reach."""
        if None in steps:
            return
        for k in range(52):
            at = {k}
            for i, lo, hi in steps:
                if i in at:
                    at = at | set(range(lo, hi)) if lo <= i < hi else (at - {i}) | set(range(lo, hi))
                elif any(lo <= a < hi for a in at):
                    at = at | {i}
            if len(at) < 52:
                raise Broken(where, 'the card at place %d can never come to place %d' % (k, min(set(range(52)) - at)))

    def uniform(root):
        def f():
            try:
                q, rng = shuffling(w, root)
                c = q.value.content if isinstance(q.value, Vec) else q.value
                c = q.I.norm_content(c)
                if not isinstance(c, models.Perm):
                    if isinstance(c, (Arr, Stack)) and not q.effects:
                        raise Broken(w.where(root), 'the deck is returned without being shuffled')
                    raise Unsupported('the deck returned is not a rearranged one')
                if c.extra:
                    raise Unsupported('the deck is changed by %s' % (c.extra,))
                steps = drawn_steps(q)
                free = any(e[0] == 'draw' and e[4] != 'bounded' for e in q.effects)
                gens = [e for e in q.effects if e[0] in ('shuffle', 'partial_shuffle') or e[0] == 'draw' and e[4] == 'bounded']
                ours = [e for e in gens if (isinstance(e[3], Ptr) and e[3].alloc == rng.alloc if rng is not None else 'ThreadRng' in str(e[4]) or e[0] == 'draw')]
                if len(ours) < len(gens):
                    seeds = sum(e[0] == 'seed_from_u64' and e[2] != 'fixed' for e in q.effects)
                    if not ours and seeds < 4 and not any(e[0] == 'from_entropy' for e in q.effects):
                        raise Broken(w.where(root), 'a generator seeded with %d bits gives fewer orderings than there are' % (64 * seeds))
                    raise Unsupported('a shuffle by another generator')
                if not complete(steps, 52):
                    if not free:
                        confined(steps, w.where(root))
                    if not free and not any(e[0] == 'step' and (e[3] == 'content' or e[1] is not TRUE) for e in q.effects) \
                            and outcomes(steps) % math.factorial(52):
                        raise Broken(w.where(root), 'the draws have a number of equally likely outcomes that 52! does not divide')
                    raise Unsupported('swaps with drawn places that are not a shuffle in a known order')
                if any(e[0] == 'step' and e[3] == 'content' or e[1] is not TRUE for e in q.effects):
                    raise Unsupported('the deck is rearranged by what is in it')
                if free:
                    raise Unsupported('words drawn otherwise')
                return '%d swaps with an independently drawn place, in a known complete order; nothing looks at the cards' % len(steps)
            except Unsupported:
                dealt(root)
                raise
        return f
    x.ob('every ordering', 'shuffled_with(): a complete shuffle by uniform draws of the generator, then nothing that depends on the cards', uniform('deck_shuffled_with'))
    x.ob('every ordering (default generator)', 'shuffled(): the same with the thread generator', uniform('deck_shuffled'))


AMBIENT = re.compile(r'(?:^|[<\s:&(])(?:std::)?(?:env|fs|net|process)::|\btime::(?:Instant|SystemTime)\b|\bthread::(?:current|Thread)\b|hash::random::RandomState|'
                     r'(?:^|<|\s)getrandom::')


def C09(x):
    w = x.w

    shuffled = lambda root: shuffling(w, root)

    def drawn(f):
        """Where the result over any drawn word stays unknown, a definite word may still confirm a violation."""
        def g():
            try:
                return f()
            except Unsupported as e:
                err = e
            words = {0, (1 << 64) - 1, 1 << 63}
            for k in w.P.insts:
                if k['body'] is not None and k['crate'] == 'poker' and 'shuffled' in k['np']:
                    cs = set()
                    int_constants(k['body'], cs)
                    words |= {c % (1 << 64) for c in cs}
            for v in sorted(words)[:12]:
                models.DRAW = v
                try:
                    f()
                except (Unsupported, Diverged, Missing):
                    pass
                except Broken as e:
                    e.what += ' [when the generator gives the word %#x]' % v
                    raise
                finally:
                    models.DRAW = None
            raise err
        return g

    def perm(root):
        def g():
            if x.start is not None:
                definite(root)
            try:
                return f()
            except Unsupported:
                definite(root)
                raise

        @drawn
        def f():
            q, _ = shuffled(root)
            c = q.value.content if isinstance(q.value, Vec) else q.value
            c = q.I.norm_content(c)
            if not isinstance(c, Perm) and any(e[0] == 'draw' for e in q.effects):
                raise Unsupported('the deck is rearranged in another way than by swaps')
            if not isinstance(c, Perm):
                raise Broken(w.where(root), 'the deck is returned without being shuffled')
            if c.extra:
                raise Broken(w.where(root), 'the deck is changed after the shuffle: %s' % (c.extra,))
            card_set(w, content(Vec(c.origin)), w.where(root))
            return '52 cards behind a library shuffle'
        return g

    def definite(root):
        """Some definite orderings in place of the shuffle's."""
        deck = content(w.cached('deck', lambda: run(w, 'deck_vec', [])).value)
        for k in (0, 17):
            models.DEALT = [deck[k:] + deck[:k]]
            first = None
            try:
                q, _ = shuffled(root)
                r = content(q.value)
                if x.start is not None:
                    first = content(shuffling(x.w0, root)[0].value)
            except (Diverged, Missing, Unsupported):
                continue
            finally:
                models.DEALT = None
            if any(e[0] == 'step' and e[3] != 'fixed' for e in q.effects):
                continue
            card_set(w, r, w.where(root))
            if first is not None and any(s is not t for a, b in zip(first, r) for (_, _, s), (_, _, t) in zip(columns(a), columns(b))):
                raise Broken(w.where(root), 'the same shuffle gives another deck than at the first call')
    x.ob('permutation', 'what shuffled_with() returns is a library permutation of the 52 cards', perm('deck_shuffled_with'))
    x.ob('permutation (default generator)', 'what shuffled() returns is a library permutation of the 52 cards', perm('deck_shuffled'))

    def elsewhere(root):
        """A reading of the environment by the crate's own code on the way from a shuffle."""
        from checks_sys import CallGraph
        g = CallGraph(w)
        seen = g.reach([w.roots[root]])
        for i in sorted(seen):
            if seen[i] is not None and w.P.insts[seen[i]]['crate'] == 'poker' and AMBIENT.search(w.P.insts[i]['np']):
                raise Broken(g.path_text(i, seen), 'shuffling reads %s' % w.P.insts[i]['np'])

    def source(root):
        h = ours(root)

        def g():
            try:
                return h()
            except Unsupported:
                elsewhere(root)
                raise
        return g

    def ours(root):
        @drawn
        def f():
            q, rng = shuffled(root)
            where = w.where(root)
            shuffles = 0
            for e in q.effects:
                op, path, ptr, gen = e[:4]
                at = e[5] if len(e) > 5 and e[5] else where
                if op in ('shuffle', 'partial_shuffle'):
                    shuffles += 1
                    if path is not TRUE:
                        p = find(lnot(path))
                        if p is not None:
                            raise Broken(at, 'the shuffle is skipped in some cases')
                    if rng is not None and not (isinstance(gen, Ptr) and gen.alloc == rng.alloc):
                        if any(o[0] == 'seed_from_u64' and o[2] != 'fixed' for o in q.effects):
                            raise Unsupported('a shuffle is driven by a generator made from a drawn seed')
                        raise Broken(at, 'a shuffle is driven by a generator that is not the caller\'s')
                elif op in ('step', 'dealt'):
                    continue
                elif op in ('thread_rng', 'rng') and rng is None or op == 'seed_from_u64' and rng is not None:
                    continue
                elif op == 'draw' and (gen is None or rng is None or isinstance(gen, Ptr) and gen.alloc == rng.alloc):
                    continue
                else:
                    raise Broken(at, 'shuffling has another effect: %s' % op)
            steps = drawn_steps(q)
            if not steps and any(e[0] == 'draw' for e in q.effects):
                raise Unsupported('the deck is rearranged in another way than by swaps')
            if not steps:
                raise Broken(where, 'the deck does not go through the library shuffle')
            if not complete(steps, 52):
                if outcomes(steps) % math.factorial(52):
                    raise Broken(where, 'only a part of the deck is shuffled' if shuffles else 'the swaps drawn are not a full shuffle')
                raise Unsupported('swaps with drawn places that are not a shuffle in a known order')
            return sorted(set(str(e[0]) for e in q.effects))
        return f
    x.ob('randomness', 'the caller\'s generator is the only source of randomness, and the whole deck goes through the library shuffle', source('deck_shuffled_with'))
    x.ob('default generator', 'shuffled() shuffles the whole deck with the thread generator and nothing else', source('deck_shuffled'))


# ------------------------------------------------------------------ C23
def macro_sizes(w, root, hi=300):
    """One more than the integer constants a macro leaves in its user."""
    s = set()
    for i in w.P.insts.values() if isinstance(w.P.insts, dict) else w.P.insts:
        if i['body'] is not None and i['crate'] == 'vroots' and re.match(r'(?:vroots::)?(?:\w+::)*' + root, i['name']):
            int_constants(i['body'], s)
    return [c + 1 for c in s if 4 <= c <= hi]


def C23(x):
    w = x.w

    def run(w, root, build, **kw):
        if root in w.gone:
            raise Broken("the caller's %s" % root, 'a documented use of the macro no longer compiles: %s' % w.gone[root])
        need(w, root)
        return w.run(root, build, **kw)

    named = lambda r, s: w.card(oracle.RANKS.index(r), oracle.SUITS.index(s))

    def fixed(root, want):
        def f():
            q = run(w, root, [])
            got = list(q.value.items) if isinstance(q.value, Arr) else [q.value]
            if len(got) != len(want):
                raise Broken(root, 'the macro gives %d cards instead of %d' % (len(got), len(want)))
            for i, (a, b) in enumerate(zip(got, want)):
                same_value(a, named(*b), 'macro at %s' % w.inst(root)['span'], 'card %d is not the %s of %s' % (i, b[0], b[1]), w)
            return len(want)
        return f
    x.ob('card!(Rank, Suit)', 'denotes that card', fixed('mac_card_two', [('Queen', 'Hearts')]))
    x.ob('card!(Rank of Suit)', 'denotes that card', fixed('mac_card_of', [('Queen', 'Hearts')]))
    three = [('Two', 'Clubs'), ('Ace', 'Spades'), ('Ten', 'Diamonds')]
    for r in ('mac_cards_semi', 'mac_cards_semi_trailing', 'mac_cards_of', 'mac_cards_of_trailing'):
        x.ob(r, 'the cards written, in the order written', fixed(r, three))
    # the order in which roots/src/lib.rs names them
    src = open(os.path.join(build.VERIF, 'roots/src/lib.rs')).read()
    written = re.findall(r'(\w+) of (\w+)', re.search(r'fn mb_of_52\(\).*', src).group(0))
    assert len(set(written)) == 52

    def bare(n):
        def f():
            for r in ('mb_semi_%d', 'mb_semi_tr_%d', 'mb_of_%d', 'mb_of_tr_%d'):
                fixed(r % n, written[:n])()
            return 4 * n
        return f
    for n in (1, 2, 5, 13, 52):
        x.ob('cards! of %d' % n, 'the cards written, in the order written, in every form, where nothing but the macro is imported', bare(n))
    x.ob('cards! in a constant', 'the cards written', fixed('mb_const', written[:3]))
    x.ob('card! on its own', 'the card written, where nothing but the macro is imported', fixed('mb_card', [('Nine', 'Diamonds')] * 2))
    suits = dict(c='Clubs', d='Diamonds', h='Hearts', s='Spades')
    for name in '2c 3c 4d 5d 6h 7h 8s 9s tc jd qh ks ac'.split():
        c = (oracle.RANKS[oracle.RANK_CHARS.index(name[0].upper())], suits[name[1]])
        x.ob('identifier ' + name, 'both identifier forms of card! denote the %s of %s' % c, fixed('mc_' + name, [c, c]))

    def expr():
        cs = [charof('c%d' % i) for i in range(2)]
        check_parse(w, 'mac_card_expr', lambda h: [StrRef(concat([chrterm(k) for k in cs]))], cs)
        return '%d strings' % (len(CHARS) ** 2)
    x.ob('card!(expression)', 'card!(text) is the parse of the text', expr)

    pal = lambda name, s: dimvar(Dim(name, len(s), label=lambda i, s=s: s[i]), [ord(k) for k in s], 'char')

    def exprs(root, n=3, wrap=StrRef):
        def f():
            it = [(pal('first%d' % i, '2TAx'), pal('second%d' % i, 'csy')) for i in range(n)]
            q = run(w, root, lambda h: [wrap(concat([chrterm(a), chrterm(b)])) for a, b in it])
            got = content(q.value)
            if len(got) != n:
                raise Broken(root, '%d texts give %d results' % (n, len(got)))
            ty = w.retty('card_from_str')
            er = vnum(w, ty, 'Err')
            ety = w.P.types[ty]['variants'][er]['fields'][0]['ty']
            LRS = tuple(vnum(w, ety, n) for n in ('InvalidLength', 'InvalidRank', 'InvalidSuit'))
            for i, (v, (a, b)) in enumerate(zip(got, it)):
                t = concat([chrterm(a), chrterm(b)])

                def payload(var, ch=None, t=t):
                    return tuple(Str(t) if g['name'] == 'original_input' else ch for g in w.P.types[ety]['variants'][var]['fields'])
                check_result(w, v, small_spec(w, ty, ety, a, b, payload, LRS), 'macro at %s, result %d' % (w.inst(root)['span'], i))
            return '%d sequences of %d texts' % (12 ** n, n)
        return f
    x.ob('cards!(two texts)', 'the parses of the texts, in order', exprs('mb_exprs_2', 2))
    x.ob('cards!(nine texts)', 'the parses of the texts, in order', exprs('mb_exprs_9', 9))
    x.ob('cards!(strings)', 'the parses of the texts, in order', exprs('mb_exprs_string', 2, Str))
    x.ob('cards!(texts)', 'the parses of the texts, in order', exprs('mac_cards_exprs'))
    x.ob('cards!(texts,)', 'the parses of the texts, in order', exprs('mac_cards_exprs_trailing'))

    def one_text(root='mac_cards_str', wrap=StrRef):
        n = 0
        for t in ['', '2c', '2c 3d', '  Ah\tKs  Qd ', 'Tc\nJh', '2c x', 'Ac Ac Ac', '10c 2d', '2c\u20033d']:
            q = run(w, root, lambda h: [wrap(sconst(t))])
            got = content(q.value)
            parts = t.split()
            if len(got) != len(parts):
                raise Broken('cards! macro', 'cards!(%r) gives %d results' % (t, len(got)))
            for v, p in zip(got, parts):
                k = run(w, 'card_from_str', lambda h: [StrRef(sconst(p))])
                same_value(v, k.value, 'cards! macro', 'cards!(%r): a result is not the parse of %r' % (t, p), w)
            n += len(parts)
        return n
    x.ob('cards!(text)', 'the parses of the whitespace-separated parts, in order (a set of texts; splitting is the library\'s)', one_text)
    x.ob('cards!(string)', 'the parses of the whitespace-separated parts, in order (a set of texts; splitting is the library\'s)',
         lambda: one_text('mb_string', Str))

    def owned():
        cs = [charof('c%d' % i) for i in range(2)]
        check_parse(w, 'mb_card_string', lambda h: [Str(concat([chrterm(k) for k in cs]))], cs)
        return '%d strings' % (len(CHARS) ** 2)
    x.ob('card!(string)', 'card!(text) is the parse of the text', owned)

    def boxed(root, sizes):
        def f():
            cs = [w.free_card(i)[2] for i in range(sum(sizes))]

            def args(h):
                out, k = [], 0
                for n in sizes:
                    out.append(h.slice(cs[k:k + n]))
                    k += n
                return out
            q = run(w, root, args)
            got = content(q.value)
            if len(got) != len(cs):
                raise Broken('box_cards! macro', 'boxing %s cards gives %d' % ('+'.join(map(str, sizes)), len(got)))
            for i, (a, b) in enumerate(zip(got, cs)):
                same_value(a, b, 'box_cards! macro', 'card %d of the boxed slices is wrong' % i, w)
            return len(cs)
        return f
    for k, root in ((2, 'mb_box_2'), (7, 'mb_box_7')):
        for n in (0, 1, 3):
            x.ob('box_cards! of %d slices of %d' % (k, n), 'concatenation in argument order, for all cards', boxed(root, (n,) * k))

    def mixed():
        cs = [w.free_card(i)[2] for i in range(6)]
        got = content(run(w, 'mb_box_mixed', lambda h: [Vec(Arr(cs[:3])), Arr(cs[3:5]), Vec(Arr(cs[5:]))]).value)
        if len(got) != 6:
            raise Broken('box_cards! macro', 'boxing 3+2+1 cards gives %d' % len(got))
        for i, (a, b) in enumerate(zip(got, cs)):
            same_value(a, b, 'box_cards! macro', 'card %d of the boxed collections is wrong' % i, w)
        return 6
    x.ob('box_cards! of collections', 'concatenation in argument order, for all cards, of a vector, an array and a box', mixed)
    big = max([60] + macro_sizes(w, 'mac_box'))
    for sizes in [(2, 1, 2), (0, 2, 0), (1, 0, 1), (0, 0, 0)] + [tuple(big if i == k else 1 for i in range(3)) for k in range(3)]:
        x.ob('box_cards! %s' % (sizes,), 'concatenation in argument order, for all cards', boxed('mac_box', sizes))
    for sizes in ((2, 1), (0, 2), (2, 5)):
        x.ob('box_cards!, trailing comma %s' % (sizes,), 'concatenation in argument order, for all cards', boxed('mac_box_trailing', sizes))
