"""C03, C19-C21, C24, C26: the crate as a whole - messages, panics, effects, visibility, builds."""
import itertools
import json
import os
import re
import numpy as np
import build
from prog import Prog
import oracle
import seqs
from core import *
from evals import *
from checks_card import need, run, free_cards, macro_sizes, LONGER, HINTS
from checks_eval import slice_result, class_values, partitions, strict


# ------------------------------------------------------------------ C19
def pieces(t, limit=64):
    """[(guard, [parts])]: the text as concatenations, one per case of its choices."""
    if t.op == 'ite':
        return [(land(t.args[0], g), p) for g, p in pieces(t.args[1], limit)] + \
               [(land(lnot(t.args[0]), g), p) for g, p in pieces(t.args[2], limit)]
    if t.op != 'concat':
        return [(TRUE, [t])]
    out = [(TRUE, [])]
    for a in t.args:
        out = [(land(g, h), p + q) for g, p in out for h, q in pieces(a, limit)]
        if len(out) > limit:
            raise Unsupported('a message with many cases')
    return [(g, p) for g, p in out if g is not FALSE]


def lists_set(text, chars):
    """Whether the text spells out exactly this set of characters somewhere, in any order."""
    t = re.sub(r'[\s,\'"`|/]', '', text)
    n = len(chars)
    for i in range(len(t) - n + 1):
        if set(t[i:i + n]) == set(chars):
            return True
    return False


RANKSET, SUITSET = '23456789TJQKA', 'chsd'
TEXTS = ['', 'x', '2', '10c', 'AsX', '\u00e9', '\u2660\u00fcq', '\u2660', ' 2c', '2c ', 'a longer piece of text', 'abcdefghijklmnop' * 20, '\u00e9' * 40, '{}', "it's",
         '%s', 'ab', '\u00e9\u00e9', 'a\u0301', '\U0001f0a1', '12345678901234567890', '2c3d', '\n\t', 'Ac\n']


def error_type(w):
    return deref(w, w.argty('perr_display', 0))


def parse_error(w, name, text, ch=None):
    ty = error_type(w)
    k = vnum(w, ty, name)
    fs = tuple(Str(text) if f['name'] == 'original_input' else ch for f in w.P.types[ty]['variants'][k]['fields'])
    return Enum(const(k, VIDX), {k: fs}, ty)


def eval_error_type(w):
    return deref(w, w.argty('eerr_display', 0))


def not_unique(w, cards):
    ty = eval_error_type(w)
    k = vnum(w, ty, 'CardsNotUnique')
    return Enum(const(k, VIDX), {k: (Vec(Arr(cards)),)}, ty)


def bad_size(w, n):
    ty = eval_error_type(w)
    k = vnum(w, ty, 'InvalidHandSize')
    return Enum(const(k, VIDX), {k: (n,)}, ty)


def constant_text(q):
    t = q.value.term
    if t.is_const:
        return t.data
    raise Unsupported('the message for a given error is not known')


def numbers(text):
    return [int(x) for x in re.findall(r'(?<![\w.])\d+(?![\w])', text)]


CARD = re.compile(r'(?<![A-Za-z0-9])([%s])([%s])(?![A-Za-z0-9])' % (RANKSET, SUITSET))
PRETTY = {v: k for k, v in oracle.SUIT_PRETTY.items()}
CARD2 = re.compile('([%s])([%s])' % (RANKSET, ''.join(PRETTY)))


def cards_in(text):
    """The cards a message names, in order, as (rank, suit) numbers."""
    ch = {oracle.SUIT_CHARS[s]: i for i, s in enumerate(oracle.SUITS)}
    out = [(m.start(), oracle.RANK_CHARS.index(m.group(1)), ch[m.group(2)]) for m in CARD.finditer(text)]
    out += [(m.start(), oracle.RANK_CHARS.index(m.group(1)), oracle.SUITS.index(PRETTY[m.group(2)])) for m in CARD2.finditer(text)]
    return [(r, s) for _, r, s in sorted(out)]


def hash_order(x, root, f, what='text'):
    """An iteration over a randomly seeded table that reaches a result makes the result vary."""
    w = x.w
    try:
        return f()
    except Unsupported as e:
        if 'hash table' in str(e):
            g = CallGraph(w)
            seen = g.reach([w.roots[root]])
            names = [w.P.insts[i]['np'] for i in seen]
            seeded = [i for i in seen if 'RandomState' in w.P.insts[i]['name'] and ITERATES.search(w.P.insts[i]['np'])]
            if seeded and not any(re.search(r'sort|BTree|BinaryHeap|Itertools::sorted', n) for n in names):
                raise Broken(g.path_text(seeded[0], seen), 'the %s is made in the iteration order of a randomly seeded hash table (%s)'
                             % (what, w.P.insts[seeded[0]]['np']))
        raise


ITERATES = re.compile(r'(?:collections|hashbrown::map|hashbrown::set)::Hash(?:Map|Set)::<[^>]*>::(?:iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain)\b|'
                      r'<&?(?:\'\w+ )?(?:mut )?(?:collections|hashbrown::map|hashbrown::set)::Hash(?:Map|Set)<.*> as iter::IntoIterator>::into_iter|'
                      r'(?:collections|hashbrown::set)::Hash(?:Set)::<.*>::(?:union|difference|intersection|symmetric_difference)')


def C19(x):
    w = x.w
    where = w.where('perr_display')

    def symbolic(name, judge, concrete):
        """judge(parts) says what is missing; when something is, given texts decide."""
        def f():
            s, c = sym('the input', 'str'), charof('c')
            missing = None
            try:
                q = run(w, 'perr_display', lambda h: [h.ref(parse_error(w, name, s, c))])
                n = 0
                for g, p in pieces(q.value.term):
                    missing = judge(p, s, c)
                    n += 1
                    if missing:
                        break
                if not missing:
                    return '%d forms of the message, for every input and character' % n
            except Unsupported as e:
                missing = 'the message is not known: %s' % e
            for t in TEXTS:
                for ch in (['x'] if name == 'InvalidLength' else "x2A'\u00e9\u2660 "):
                    q = run(w, 'perr_display', lambda h: [h.ref(parse_error(w, name, sconst(t), const(ord(ch), 'char')))])
                    try:
                        m = constant_text(q)
                    except Unsupported as e:
                        continue
                    why = concrete(m, t, ch)
                    if why:
                        raise Broken(where, 'the %s message for %r is %r: %s' % (name, t, m, why))
            raise Unsupported(missing)
        return f

    def has_input(p, s):
        return None if any(a is s for a in p) else 'the whole input is not quoted'

    def length(p, s, c):
        n = mk('nchars', USIZE, s)
        return has_input(p, s) or (None if any(a.op == 'dispint' and a.args[0] is n for a in p) else 'the number of characters is not stated')

    def length_c(m, t, ch):
        if t not in m:
            return 'the input is not quoted whole'
        rest = m.replace(t, '', 1) if t else m
        if len(t) not in numbers(rest):
            return 'it does not state that the input has %d characters' % len(t)

    def offender(chars, name):
        def f(p, s, c):
            bad = chrterm(c)
            txt = [a.data for a in p if a.is_const]
            return has_input(p, s) or (None if any(a is bad for a in p) else 'the offending character is not shown') or \
                (None if any(lists_set(k, chars) for k in txt) else 'the accepted characters are not listed')

        def g(m, t, ch):
            if t not in m:
                return 'the input is not quoted whole'
            rest = m.replace(t, '', 1) if t else m
            if ch not in rest.replace(chars, ''):
                return 'it does not show the character %r' % ch
            if not lists_set(rest, chars):
                return 'it does not list the accepted characters %s' % chars
        return f, g
    x.ob('length error', 'the message contains the whole input and the number of its characters, for every input', symbolic('InvalidLength', length, length_c))
    x.ob('rank error', 'the message contains the whole input, the offending character and the accepted ranks', symbolic('InvalidRank', *offender(RANKSET, 'rank')))
    x.ob('suit error', 'the message contains the whole input, the offending character and the accepted suits', symbolic('InvalidSuit', *offender(SUITSET, 'suit')))
    ew = w.where('eerr_display')

    def size():
        n = sym('n', USIZE)
        ok = False
        try:
            q = run(w, 'eerr_display', lambda h: [h.ref(bad_size(w, n))])
            ps = pieces(q.value.term)
            ok = all(any(a.op == 'dispint' and a.args[0] is n for a in p) for _, p in ps)
        except Unsupported:
            pass
        if ok:
            return 'every number of cards'
        for k in [0, 1, 2, 3, 4, 5, 7, 10, 52, 1000, 2 ** 40]:
            q = run(w, 'eerr_display', lambda h: [h.ref(bad_size(w, usz(k)))])
            m = constant_text(q)
            if k not in numbers(m) or (k == 5 and numbers(m).count(5) < 2):
                raise Broken(ew, 'the hand-size message for %d cards is %r' % (k, m))
        raise Unsupported('the hand-size message is not known for every number')
    x.ob('hand size', 'the message contains the number of cards, for every number', size)

    def dups(n):
        def f():
            cs, dims = free_cards(w, n)
            q = hash_order(x, 'eerr_display', lambda: run(w, 'eerr_display', lambda h: [h.ref(not_unique(w, [c[2] for c in cs]))]))
            t = q.value.term
            if t.syms or t.dims - set(dims):
                raise Unsupported('the message depends on more than the cards')

            def judge(hands):
                env = card_env_(w, hands)
                got = np.broadcast_to(evaluate(t, env), (len(hands),)) if n else [t.data]
                ids = hands[:, :, 0] * 4 + hands[:, :, 1]
                memo = {}
                for k in range(len(hands)):
                    m = got[k]
                    shown = memo.get(m)
                    if shown is None:
                        shown = memo[m] = sorted(a * 4 + b for a, b in cards_in(m))
                    if n:
                        u = ids[k].tolist()
                        want = sorted(set(i for i in u if u.count(i) > 1))
                    else:
                        want = []
                    if shown != want:
                        raise Broken(ew, 'for the cards %s the duplicate message is %r' % (hand_text(hands[k]), m))
                return len(hands)
            if n == 0:
                return judge(np.zeros((1, 0, 2), dtype=int))
            if n <= 3:
                g = np.indices((52,) * n).reshape(n, -1).T
                return '%d sequences of %d cards (all)' % (judge(np.stack([g // 4, g % 4], axis=2)), n)
            ps = partitions(n)
            hands = assignments(ps, 12 if n <= 6 else 3)
            return '%d sequences: every pattern of equal cards among %d cards (%d), over cards that cover all pairs' % (judge(hands), n, len(ps))
        return f
    for n in range(0, 9 if x.thorough else 8):
        x.ob('duplicates among %d cards' % n, 'each card that occurs more than once is listed exactly once, and no other', dups(n))

    def many_dups(times, singles):
        # the same shape of sequence at all 52 rotations of the deck at once
        def f():
            d = Dim('rotation', 52)
            seq = [k * 23 % 52 for k in range(times)] * 2
            seq.insert(times // 2, seq[0])
            for k in range(singles):
                seq.insert(k * 3, (times + k) * 23 % 52)
            ids = (np.array(seq)[:, None] + np.arange(52)[None, :]) % 52
            cs = [w.card((d, row // 4), (d, row % 4)) for row in ids]
            q = hash_order(x, 'eerr_display', lambda: run(w, 'eerr_display', lambda h: [h.ref(not_unique(w, cs))]))
            t = q.value.term
            if t.syms or t.dims - {d}:
                raise Unsupported('the message depends on more than the cards')
            got = np.broadcast_to(evaluate(t, {d: np.arange(52)}), (52,))
            for k in range(52):
                u = ids[:, k].tolist()
                want = sorted(set(i for i in u if u.count(i) > 1))
                if sorted(a * 4 + b for a, b in cards_in(got[k])) != want:
                    raise Broken(ew, 'for %d cards of which %d are repeated the duplicate message is %r' % (len(u), len(want), got[k]))
            return '52 sequences of %d cards' % len(seq)
        return f
    for times, singles in ((9, 4), (27, 25), (52, 0)):
        x.ob('%d different duplicates' % times, 'each card that occurs more than once is listed exactly once, and no other', many_dups(times, singles))

    def same(root, make):
        def f():
            def go():
                q = run(w, root, make)
                if q.effects:
                    raise Broken(str(q.effects[0][5] or w.where(root)), 'the text depends on %s' % q.effects[0][0])
                return q
            q = hash_order(x, root, go)
            return 'a function of the error value alone'
        return f
    x.ob('same message every time', 'the duplicate message reads nothing but the error', same('eerr_display', lambda h: [h.ref(not_unique(w, [w.free_card(i)[2] for i in range(5)]))]))
    x.ob('same parse message every time', 'the parse message reads nothing but the error', same('perr_display', lambda h: [h.ref(parse_error(w, 'InvalidRank', sym('the input', 'str'), charof('c')))]))


def card_env_(w, hands):
    env = {}
    for i in range(hands.shape[1]):
        r, s, _ = w.free_card(i)
        env[r], env[s] = hands[:, i, 0], hands[:, i, 1]
    return env


def assignments(parts, m, seed=5):
    """Cards for every pattern of equal cards: m choices each, among them same-rank and same-suit ones."""
    rnd = np.random.default_rng(seed)
    out = []
    n = parts.shape[1]
    for p in parts:
        k = int(p.max()) + 1
        for j in range(m):
            if j % 3 == 0:
                u = rnd.permutation(52)[:k]
            elif j % 3 == 1:
                r = int(rnd.integers(13))
                u = [(r + i // 4) % 13 * 4 + i % 4 for i in range(k)]
                u = list(rnd.permutation(u))
            else:
                s = int(rnd.integers(4))
                u = [int(z) * 4 + s for z in rnd.permutation(13)[:k]]
            out.append([(int(u[q]) // 4, int(u[q]) % 4) for q in p])
    return np.array(out).reshape(len(out), n, 2)


# ------------------------------------------------------------------ the call graph
class CallGraph:
    def __init__(self, w):
        self.P = w.P
        self.memo = {}
        self.statics = {}
        self.casts = {}

    def edges(self, i):
        r = self.memo.get(i)
        if r is None:
            out, st, ad = {}, {}, []

            def go(o, sp):
                if isinstance(o, dict):
                    sp = o.get('sp') or sp
                    for k, v in o.items():
                        if k == 'fn' and isinstance(v, int):
                            out.setdefault(v, sp)
                        elif k == 'static':
                            st.setdefault(str(v), sp)
                        elif isinstance(v, str) and v.startswith('PointerExpose'):
                            ad.append(sp)
                        else:
                            go(v, sp)
                elif isinstance(o, list):
                    for v in o:
                        if isinstance(v, str) and 'PointerExpose' in v:
                            ad.append(sp)
                        else:
                            go(v, sp)
            b = self.P.insts[i]['body']
            if b:
                go(b, None)
            r = self.memo[i] = out
            self.statics[i] = st
            self.casts[i] = ad
        return r

    def stop(self, x):
        n = x['np']
        return n.startswith('panicking') or 'RandomState::new' in x['name'] or n.startswith('hash::random::RandomState') \
            or '<hash::random::RandomState' in n or re.search(r'(?:^|<)sync::Arc\b', n) is not None

    def reach(self, roots):
        seen = {r: None for r in roots}
        work = list(roots)
        while work:
            i = work.pop()
            if self.stop(self.P.insts[i]):
                continue
            for j in self.edges(i):
                if j not in seen:
                    seen[j] = i
                    work.append(j)
        return seen

    def path_text(self, i, seen):
        names = []
        where = None
        while i is not None:
            x = self.P.insts[i]
            if x['crate'] == 'poker' or not names:
                names.append(x['name'])
                if x['crate'] == 'poker' and where is None:
                    where = x.get('span')
            last = i
            i = seen[i]
        names.append(self.P.insts[last]['name'])
        return '%s, called by %s' % (where or 'src', ' <- '.join(dict.fromkeys(names)))


# ------------------------------------------------------------------ C20
def generic(x):
    """[(root, what, builder of arguments)]: every public operation on general arguments."""
    w = x.w
    T = w.P.types
    cache = {}

    def strings(tag, full):
        c = [charof('%s%d' % (tag, i)) for i in range(3)]
        tail = sym(tag + ' rest', 'str')
        if full:
            return [concat([chrterm(k) for k in c[:n]]) for n in range(3)] + [concat([chrterm(k) for k in c] + [tail])]
        pal = lambda name, s: dimvar(Dim(name, len(s), label=lambda i, s=s: s[i]), [ord(k) for k in s], 'char')
        return [concat([chrterm(pal(tag + 'first', '2TAx')), chrterm(pal(tag + 'second', 'csy'))]), sconst(''), sconst('T'), sconst('10c'), sconst('\u2660\u00e9')]
    d = lambda: domain(w)

    def values(ty, tag, full):
        """[(description, function of Refs to value)] for one argument type."""
        t = T[ty]
        if t['k'] == 'ref':
            inner = t['ty']
            it = T[inner]
            if it['k'] == 'str':
                return [('text %d' % i, lambda h, s=s: StrRef(s)) for i, s in enumerate(strings(tag, full))]
            if it['k'] == 'slice' and it['ty'] == w.card_ty:
                return [('%d cards' % n, lambda h, n=n: h.slice([w.free_card(i + 10 * ord(tag[-1]))[2] for i in range(n)])) for n in (0, 1, 2)]
            return [(n, lambda h, f=f: h.ref(f(h))) for n, f in values(inner, tag, full)]
        if ty == w.card_ty:
            r, s = Dim('rank ' + tag, 13), Dim('suit ' + tag, 4)
            return [('any card', lambda h: w.card(r, s))]
        if ty == w.rank_ty:
            r = Dim('rank ' + tag, 13)
            return [('any rank', lambda h: w.rank(r))]
        if ty == w.suit_ty:
            s = Dim('suit ' + tag, 4)
            return [('any suit', lambda h: w.suit(s))]
        if ty == w.eval_ty:
            return [('any evaluation', lambda h: d().value(d().dim(tag)))]
        if ty == w.class_ty:
            def cv(h):
                K, v, rows = class_values(w)
                L = cache.setdefault(tag, Dim('class value ' + tag, K.size, label=K.label))
                return vrestrict(v, {K: (L, np.arange(K.size))})
            return [('any class value', cv)]
        if t['k'] == 'char':
            c = charof('char ' + tag)
            return [('any character', lambda h: c)]
        if t['k'] == 'adt' and t['path'].endswith('ParseCardError'):
            s, c = sym('input ' + tag, 'str'), charof('char ' + tag)
            return [(v['name'], lambda h, v=v: parse_error(w, v['name'], s, c)) for v in t['variants']]
        if t['k'] == 'adt' and t['path'].endswith('EvalError'):
            one = w.card(3, 2)
            return [('CardsNotUnique(%d)' % n, lambda h, n=n: not_unique(w, [w.free_card(i)[2] for i in range(n)])) for n in (0, 1, 2, 5, 7)] + \
                [('CardsNotUnique(%d of one card)' % n, lambda h, n=n: not_unique(w, [one] * n)) for n in long_sizes(x, lambda p: 'rror' in p)[-1:]] + \
                [('InvalidHandSize', lambda h: bad_size(w, sym('size ' + tag, USIZE)))]
        if t['k'] == 'adt' and t['path'].endswith('Evaluator'):
            out = [('ev_new', lambda h: w.evaluator('ev_new').value)]
            if 'ev_default' in w.roots:
                out.append(('ev_default', lambda h: w.evaluator('ev_default').value))
            return out
        if t['k'] == 'adt' and norm(t['path']) == 'vec::Vec':
            e = T[t['args'][0]]
            wrap = StrRef if e['k'] == 'ref' else Str
            return [('%d texts' % n, lambda h, n=n: Vec(Arr([wrap(strings('%s%d' % (tag, i), False)[0 if i != 1 or n < 3 else 3]) for i in range(n)]))) for n in (0, 1, 3)]
        raise Unsupported('no general argument of type %s' % t['name'])
    return values


SKIP20 = re.compile(r'^(adaptor_|rng_word|deck_shuffled|ev_|card_hash|eval_hash|rank_hash|suit_hash|mac_box|mb_box|mb_exprs|mb_string|mb_card_string|pi_|parse_iter|vague_|pull_)')


def norm(p):
    from prog import norm as f
    return f(p)


def panic_free(w, root, make, what):
    try:
        q = run(w, root, make)
    except Diverged as e:
        for ev in getattr(e, 'events', []):
            if find(ev.guard) is not None:
                raise Broken(ev.where(), '%s panics for %s: %s' % (root, what, ev.msg))
        raise
    for ev in q.events:
        p = find(ev.guard)
        if p is not None:
            raise Broken(ev.where(), 'reached from %s (%s): %s [%s]' % (w.where(root), what, ev.msg, describe_point(w, p, ev.guard.dims)))
    return len(q.I.visited)


def C20(x):
    w = x.w
    values = generic(x)

    def op(root):
        def f():
            body = w.inst(root)['body']
            if root == 'mac_cards_str':
                # splitting is the library's; the parts come from these texts
                for s in ['', '2c', ' 2c 3d ', '10c', 'x', 'Tc\nJh x', '2c\u20033d', '\u2660 \u00e9\u00e9']:
                    panic_free(w, root, lambda h: [StrRef(sconst(s))], repr(s))
                return 'given texts'
            args = [values(body['locals'][1 + i], 'ab'[i] if i < 2 else 'arg%d' % i, body['argc'] < 2) for i in range(body['argc'])]
            n = 0
            text = body['argc'] == 1 and deref(w, body['locals'][1]) == deref(w, w.argty('card_from_str', 0))
            more = ''
            for combo in itertools.product(*args):
                try:
                    panic_free(w, root, lambda h: [g(h) for _, g in combo], ', '.join(t for t, _ in combo) or 'no arguments')
                except Unsupported:
                    if not text or n == 0:
                        raise
                    if n < 3:
                        # too coarse over all characters at once
                        more = ', by classes of characters'
                        by_class(['ab'[i] for i in range(n)], lambda cs: panic_free(
                            w, root, lambda h: [StrRef(concat([chrterm(c) for c in cs]))], '%d characters' % n))
                    else:
                        # not decided for all longer texts: particular ones may settle it the other way
                        for s in LONGER + TEXTS:
                            panic_free(w, root, lambda h: [StrRef(sconst(s))], repr(s))
                        raise
                n += 1
            return '%d argument shapes%s' % (n, more)
        return f
    for root in sorted(w.roots):
        if not SKIP20.match(root) and not root.startswith('<') and w.inst(root)['crate'] == 'vroots' and w.inst(root)['kind'] == 'item' \
                and not w.inst(root)['trait_item'] and not w.inst(root)['closure']:
            x.ob(root, 'every panic site reached has an unsatisfiable guard for all arguments', op(root))

    def seqs_():
        n = 0
        for root in sorted(w.roots):
            if root.startswith('pi_vague'):
                for k in (0, 1, 3):
                    for less, more in HINTS:
                        vs = [chrterm(charof('q%d' % i)) for i in range(k)]
                        panic_free(w, root, lambda h: [Iter(seqs.HintSeq([(TRUE, StrRef(concat([v]))) for v in vs], less, more), 0, k)], '%d texts' % k)
                        n += 1
            elif root.startswith(('pi_', 'parse_iter_')):
                for t, g in values(w.argty(root, 0), 'q', False):
                    panic_free(w, root, lambda h: [g(h)], t)
                    n += 1
        return '%d operations and lengths' % n
    x.ob('sequences of texts', 'consuming the parsed sequence in any way reaches no panic', seqs_)

    def adaptors():
        m = 0
        for root in sorted(w.roots):
            if not root.startswith(('adaptor_', 'vague_')):
                continue
            ref = w.P.types[w.argty(root, 0)]['k'] == 'ref'
            rest = [usz(j) for j in (0, 1, 2, 5)] if w.inst(root)['body']['argc'] > 1 else [None]
            ty = deref(w, w.argty(root, 0))
            if len(w.P.types[ty]['variants'][0]['fields']) != 1:
                raise Unsupported('the layout of the adaptor is not known')
            for n in (0, 1, 3):
                xs = [Enum(dimvar(Dim('kind%d' % i, 2), None, VIDX), {0: (sym('o%d' % i, ('u', 8)),), 1: (sym('e%d' % i, ('u', 8)),)}, None) for i in range(n)]
                for less, more in HINTS if root.startswith('vague_') else [(None, None)]:
                    for r in rest:
                        inner = lambda: seqs.ListSeq([(TRUE, v) for v in xs]) if less is None else seqs.HintSeq([(TRUE, v) for v in xs], less, more)
                        it = lambda: Agg([Iter(inner(), 0, n)], ty)
                        panic_free(w, root, lambda h: [h.ref(it()) if ref else it()] + ([] if r is None else [r]), '%d items' % n)
                        m += 1
        return '%d operations and lengths' % m
    x.ob('the parsing adaptor', 'taking results from either end of any iterator, up to its end, reaches no panic', adaptors)

    def several():
        for t in ('', '2c', ' Ac\tKd x ', '\u2660\u00e9'):
            panic_free(w, 'mb_string', lambda h: [Str(sconst(t))], repr(t))
            panic_free(w, 'mb_card_string', lambda h: [Str(sconst(t))], repr(t))
            panic_free(w, 'mb_exprs_2', lambda h: [StrRef(sconst(t)), StrRef(sconst('Kd'))], repr(t))
            panic_free(w, 'mb_exprs_9', lambda h: [StrRef(sconst(t if i % 2 else 'Kd')) for i in range(9)], repr(t))
            panic_free(w, 'mb_exprs_string', lambda h: [Str(sconst(t)), Str(sconst('Kd'))], repr(t))
        return 20
    x.ob('cards! of texts', 'parsing several texts by macro reaches no panic (a set of texts)', several)

    longer = [max([60] + macro_sizes(w, 'mac_box'))]

    def boxes():
        for sizes in [(0, 0, 0), (1, 2, 0), (0, 3, 1)] + [tuple(z if i == k else 1 for i in range(3)) for z in longer for k in range(3)]:
            cs = [w.free_card(i)[2] for i in range(sum(sizes))]
            panic_free(w, 'mac_box', lambda h: [h.slice(cs[:sizes[0]]), h.slice(cs[:sizes[1]]), h.slice(cs[:sizes[2]])], str(sizes))
        for root, k in (('mb_box_2', 2), ('mb_box_7', 7)):
            for n in (0, 1, 3):
                cs = [w.free_card(i)[2] for i in range(k * n)]
                panic_free(w, root, lambda h: [h.slice(cs[i * n:i * n + n]) for i in range(k)], '%d slices of %d' % (k, n))
        cs = [w.free_card(i)[2] for i in range(4)]
        panic_free(w, 'mb_box_mixed', lambda h: [Vec(Arr(cs[:1])), Arr(cs[1:3]), Vec(Arr(cs[3:]))], 'collections of cards')
        return 10
    x.ob('box_cards!', 'boxing card slices reaches no panic', boxes)

    def shuffles():
        panic_free(w, 'deck_shuffled_with', lambda h: [h.ref(Opaque('rng'))], 'any generator')
        panic_free(w, 'deck_shuffled', lambda h: [], 'no arguments')
        return 2
    x.ob('shuffles', 'shuffling reaches no panic', shuffles)

    def drawing():
        n = 0
        for root in ('pull_last', 'pull_each', 'pull_fold', 'pull_hint'):
            panic_free(w, root, lambda h: [], 'no arguments')
        for root in ('pull_nth', 'pull_skip', 'pull_parts', 'pull_after', 'pull_hint_after'):
            for k in (0, 1, 17, 51, 52, 53):
                panic_free(w, root, lambda h: [usz(k)], '%d cards' % k)
                n += 1
        return n + 4
    x.ob('drawing', 'taking cards from a generated deck in any way reaches no panic', drawing)

    def hashes():
        for root, v in (('card_hash', w.card(Dim('rank', 13), Dim('suit', 4))), ('eval_hash', domain(w).value(domain(w).dim('a'))),
                        ('rank_hash', w.rank(Dim('rank', 13))), ('suit_hash', w.suit(Dim('suit', 4)))):
            panic_free(w, root, lambda h: [h.ref(v), h.ref(Vec(Log(())))], 'any value')
        return 4
    x.ob('hashing', 'hashing reaches no panic', hashes)

    def evaluators():
        for root in ('ev_new', 'ev_default'):
            panic_free(w, root, lambda h: [], 'no arguments')
        e = w.evaluator().value
        panic_free(w, 'ev_clone', lambda h: [h.ref(e)], 'any evaluator')
        for k, v, c in clones(w, 300):
            if k > 1:
                panic_free(w, 'ev_clone', lambda h: [h.ref(v)], 'a clone made in %d steps' % (k - 1))
        panic_free(w, 'ev_clone_from', lambda h: [w.evaluator('ev_default').value, h.ref(e)], 'any evaluators')
        panic_free(w, 'ev_eq', lambda h: [h.ref(e), h.ref(w.evaluator('ev_default').value)], 'two evaluators')
        return 5
    x.ob('evaluators', 'making, cloning and comparing evaluators reaches no panic', evaluators)

    def five(ev, root):
        def f():
            ft = five_table(w, ev, root)
            if ft.events:
                e, h = ft.events[0]
                raise Broken(e.where(), 'evaluating %s: %s' % (hand_text(h), e.msg))
            from checks_eval import Equalities
            E = Equalities(w, 5)
            dup = E.parts.max(axis=1) < 4
            # repeated cards are refused before anything else is done: the guards need distinct cards
            for e in ft.q.events:
                repeated_cards(w, e, E, dup, 5)
            return '%d panic sites, all ordered hands of five cards, repeated cards included' % len(ft.q.events)
        return f
    for ev in ('ev_new', 'ev_default', 'ev_clone', 'ev_clone_from'):
        x.ob('five cards, ' + ev, 'every panic site has an unsatisfiable guard for all five cards', five(ev, 'ev_slice'))
    for root in ('ev_vec', 'ev_arr5', 'ev_box'):
        x.ob('five cards, ' + root, 'every panic site has an unsatisfiable guard for all five cards', five('ev_new', root))

    def other(n):
        def f():
            q = strict(lambda: slice_result(w, n))
            if n > 5:
                for e, h in w.cache.get('template events', []):
                    raise Broken(e.where(), 'evaluating %d cards that include %s: %s' % (n, hand_text(h), e.msg))
            return few(w, q, n)
        return f
    for n in [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11] + ([12] if x.thorough else []):
        x.ob('%d cards' % n, 'every panic site has an unsatisfiable guard for all cards', other(n))

    def past(n, c, at):
        def f():
            import score
            from checks_eval import proof
            proof(w, 6)
            ev = w.evaluator().value
            cs = [w.card(k // 4, k % 4) for k in [k * 17 % 52 for k in range(n)]]
            try:
                q = w.run('ev_slice', lambda h: [h.ref(ev), h.slice(cs)], hook=score.KnownHook(w), seconds=60)
            except Diverged as e:
                for v in getattr(e, 'events', []):
                    if find(v.guard) is not None:
                        raise Broken(v.where(), 'evaluating %d cards: %s' % (n, v.msg))
                raise
            except Unsupported:
                if n < 16:
                    raise
                return 'not followed to the end'
            for v in q.events:
                if find(v.guard) is not None:
                    raise Broken(v.where(), 'evaluating %d cards: %s' % (n, v.msg))
            return 'a hand of %d cards' % n
        return f
    from checks_eval import thresholds
    done = set()
    for n, c, at in sorted(thresholds(x)):
        if n not in done and not any(o['status'] == 'broken' for o in x.obs):
            done.add(n)
            x.ob('%d cards, past the constant %d' % (n, c), 'nothing overflows when the number of subsets passes the constant %d of %s' % (c, at), past(n, c, at))


def repeated_cards(w, e, E, dup, n):
    """The guard is false whenever two of the cards are equal."""
    g = e.guard
    try:
        t = E.table(g)
        bad = np.nonzero(t & dup)[0]
        if len(bad):
            raise Broken(e.where(), 'for %d cards with %s: %s' % (n, E.label(int(bad[0])), e.msg))
        return
    except Unsupported:
        pass
    # the guard is a conjunction; a conjunct about equal cards alone settles it
    parts = list(g.args) if g.op == 'and' else [g]
    alive = dup.copy()
    for p in parts:
        try:
            alive &= E.table(p)
        except Unsupported:
            continue
    if not alive.any():
        return
    from checks_eval import probe_hands, card_env
    hands = probe_hands(n)
    ids = hands[:, :, 0] * 4 + hands[:, :, 1]
    srt = np.sort(ids, axis=1)
    rep = (srt[:, 1:] == srt[:, :-1]).any(axis=1)
    v = np.broadcast_to(evaluate(g, card_env(w, hands)), (len(hands),))
    hit = np.nonzero(v & rep)[0]
    if len(hit):
        raise Broken(e.where(), 'evaluating %s: %s' % (hand_text(hands[hit[0]]), e.msg))
    raise Unsupported('whether repeated cards can reach %s' % e.msg)


def few(w, q, n):
    from checks_eval import Equalities, probe_hands, card_env, sample_hands
    done = 0
    for e in q.events:
        E = Equalities(w, n)
        try:
            t = E.table(e.guard)
            bad = np.nonzero(t)[0]
            if len(bad):
                raise Broken(e.where(), 'for %d cards, %s: %s' % (n, E.label(int(bad[0])), e.msg))
            done += 1
            continue
        except Unsupported:
            pass
        if n <= 5:
            p = find(e.guard)
            if p is not None:
                raise Broken(e.where(), 'for %d cards: %s [%s]' % (n, e.msg, describe_point(w, p, e.guard.dims)))
            continue
        from score import six_plus
        hook, sel, _ = six_plus(w, n)
        p = None
        try:
            p = find(e.guard)
        except Unsupported as err:
            p = err
        if p is None:
            continue
        hands = sample_hands(n, 600, 11)
        v = on_hands(hook, sel, [e.guard], hands)[0]
        hit = np.nonzero(v)[0]
        if len(hit):
            raise Broken(e.where(), 'evaluating %s: %s' % (hand_text(hands[hit[0]]), e.msg))
        raise Unsupported('whether %s can be reached with %d cards' % (e.msg, n))
    return '%d panic sites' % len(q.events)


# ------------------------------------------------------------------ C21
DENY = [
    (re.compile(r'(?:^|[<\s:&(])(?:std::)?(env|fs|net|process)::'), 'reads the environment or does input/output'),
    (re.compile(r'^io::|<io::|^<io::|\bio::stdio::'), 'does input or output'),
    (re.compile(r'\btime::(?:Instant|SystemTime)\b'), 'reads the clock'),
    (re.compile(r'\bthread::(?:LocalKey|current|spawn|scope|sleep|park|yield_now|Builder|Thread)\b|\bthread::local\b'), 'uses thread-local state or threads'),
    (re.compile(r'\bsync::atomic::Atomic|\bsync::(?:poison::)?(?:mutex::)?Mutex\b|\bsync::.*RwLock\b|\bsync::.*\bOnce(?:Lock)?\b|\bLazyLock\b|\blazy_lock\b|\bonce_lock\b|\bOnceCell\b|\bLazyCell\b'),
     'uses shared mutable state'),
    (re.compile(r'(?:^|<|\s)(?:rand|rand_core|rand_chacha|getrandom)::'), 'uses randomness'),
    (re.compile(r'\bptr::(?:read_volatile|write_volatile)\b|intrinsics::volatile'), 'accesses volatile memory'),
]
CELLS = re.compile(r'^(cell::(?:Cell|RefCell|UnsafeCell|OnceCell|LazyCell|SyncUnsafeCell)|sync::atomic::Atomic\w+|sync::(?:\w+::)*(?:Mutex|RwLock|Once|OnceLock|LazyLock|Condvar))$')


def C21(x):
    w = x.w
    g = CallGraph(w)
    SHUFFLE = re.compile(r'shuffled|AnyRng|rng_word')
    roots = [i for n, i in w.P.roots.items() if not SHUFFLE.search(n)]

    def graph():
        return w.cached('reach', lambda: g.reach(roots))

    def calls():
        seen = graph()
        for i in sorted(seen):
            n = w.P.insts[i]
            if g.stop(n):
                continue
            if n['crate'] in ('rand', 'rand_core', 'rand_chacha', 'getrandom'):
                raise Broken(g.path_text(i, seen), '%s uses randomness' % n['name'])
            if n['np'].startswith('thread::local') and 'panic' in n['np']:
                continue
            for r, what in DENY:
                if r.search(n['np']):
                    # what the standard library does inside its own tables and strings is its business
                    raise Broken(g.path_text(i, seen), '%s %s' % (n['np'], what))
        nb = sum(1 for i in seen if not w.P.insts[i]['body'])
        return '%d function instances reachable from %d public operations, %d of them library functions known by name only' % (len(seen), len(roots), nb)
    x.ob('no effects', 'no operation but the shuffles reaches the environment, input/output, the clock, threads, thread-local or shared state, or randomness', calls)

    def statics():
        seen = graph()
        n = 0
        byid = {str(i): s for i, s in enumerate(w.P.statics)}
        for i in seen:
            if g.stop(w.P.insts[i]):
                continue
            g.edges(i)
            for s, sp in g.statics[i].items():
                st = byid.get(s)
                if st is None:
                    st = next((z for z in w.P.statics if z['path'] == s), None)
                if st is None:
                    raise Unsupported('static %s' % s)
                n += 1
                if st['mut'] or not st['freeze']:
                    raise Broken(g.path_text(i, seen), 'uses the mutable global %s' % st['path'])
        for st in x.poly['statics']:
            if st.get('mut') or not st.get('freeze', True):
                raise Broken(st.get('span') or st['path'], 'the crate has the mutable global %s' % st['path'])
        return '%d uses of (immutable) statics' % n
    x.ob('no mutable globals', 'no static that can change is reachable, and the crate declares none', statics)

    def addresses():
        seen = graph()
        n = 0
        for i in seen:
            if w.P.insts[i]['crate'] != 'poker':
                continue
            g.edges(i)
            n += 1
            if g.casts[i]:
                raise Broken('%s %s' % (w.P.insts[i]['name'], g.casts[i][0] or ''), 'an address is used as a number')
        return '%d functions of the crate' % n
    x.ob('no addresses', 'no function of the crate turns a pointer into a number', addresses)

    def interior(name, ty):
        def f():
            n = [0]

            def go(t, path, seen):
                if t in seen:
                    return
                seen.add(t)
                T = w.P.types[t]
                n[0] += 1
                k = T['k']
                if k == 'adt':
                    p = norm(T['path'])
                    if CELLS.match(p):
                        raise Broken(path, '%s can change behind a shared reference (%s)' % (name, T['name']))
                    if p in ('sync::Arc', 'rc::Rc', 'marker::PhantomData'):
                        for a in T.get('args') or []:
                            if isinstance(a, int):
                                go(a, path, seen)
                        return
                    for v in T['variants']:
                        for fl in v['fields']:
                            go(fl['ty'], '%s.%s' % (path, fl['name']), seen)
                    if T['crate'] != 'poker':
                        for a in T.get('args') or []:
                            if isinstance(a, int):
                                go(a, path, seen)
                elif k in ('ref', 'ptr', 'array', 'slice'):
                    go(T['ty'], path, seen)
                elif k == 'tuple':
                    for z in T['tys']:
                        go(z, path, seen)
            go(ty, name, set())
            return '%d types inside' % n[0]
        return f
    for name, ty in (('Evaluator', w.retty('ev_new')), ('Eval', w.eval_ty), ('Card', w.card_ty), ('Rank', w.rank_ty), ('Suit', w.suit_ty), ('EvalClass', w.class_ty),
                     ('ParseCardError', error_type(w)), ('EvalError', eval_error_type(w))):
        x.ob('no interior mutability in ' + name, 'no cell, lock or atomic is inside the type', interior(name, ty))

    def declared():
        for a in x.poly['adts']:
            short = a['path'].split('::')[-1]
            if short in ('Rank', 'Suit', 'Card', 'ParseCardError', 'EvalError', 'EvalClass', 'Eval', 'Evaluator', 'LookupTable', 'Meta', 'PokerHandRank') and not a['freeze']:
                raise Broken(a['span'], '%s has interior mutability' % a['path'])
        return len(x.poly['adts'])
    x.ob('frozen types', 'rustc considers the value types free of interior mutability', declared)

    def threads():
        ok, errs, log = build.witness('threads', True)
        if ok:
            return 'compiled'
        mine = [e for e in errs if e[0] is not None]
        if not mine:
            raise Unsupported('the witness does not build: %s' % log[-300:])
        for line, msg, at in mine:
            if 'cannot be' in msg or 'Send' in msg or 'Sync' in msg:
                raise Broken('%s (witness/threads.rs:%d)' % (at, line), msg)
        raise Unsupported('the witness does not compile: %s' % mine[0][1])
    x.ob('Send and Sync', 'a witness that requires Send + Sync of every public type compiles', threads)

    def effects(root, make, what):
        def f():
            def go():
                q = run(w, root, make)
                if q.effects:
                    raise Broken(str(q.effects[0][5] or w.where(root)), '%s depends on %s' % (what, q.effects[0][0]))
            hash_order(x, root, go)
            return 'no effects'
        return f
    cs = [w.free_card(i)[2] for i in range(5)]
    x.ob('evaluating five cards', 'the summary has no effects', effects('ev_slice', lambda h: [h.ref(w.evaluator().value), h.slice(cs)], 'an evaluation'))
    x.ob('building an evaluator', 'the summary has no effects', effects('ev_new', lambda h: [], 'building an evaluator'))
    x.ob('duplicate message', 'the summary has no effects', effects('eerr_display', lambda h: [h.ref(not_unique(w, cs))], 'the text'))
    c2 = [charof('c%d' % i) for i in range(2)]
    x.ob('parsing', 'the summary has no effects', effects('card_from_str', lambda h: [StrRef(concat([chrterm(k) for k in c2]))], 'parsing'))


# ------------------------------------------------------------------ C03
KNOWN = {
    'card::Card': 'new try_from_chars rank suit unique_integer rank_suit_string parse_to_iter'.split(),
    'deck': 'generate shuffled shuffled_with'.split(),
    'evaluate::eval::Eval': ['BEST', 'WORST', 'class'],
    'evaluate::Evaluator': ['new', 'evaluate'],
    'card::ParseToIter': ['try_collect'],
}
NAMES = [('card::rank::Rank', 'poker::Rank'), ('card::suit::Suit', 'poker::Suit'), ('card::Card', 'poker::Card'), ('card::ParseToIter', 'poker::card::ParseToIter'),
         ('evaluate::eval::Eval', 'poker::Eval'), ('evaluate::class::EvalClass', 'poker::EvalClass'), ('error::ParseCardError', 'poker::ParseCardError'),
         ('error::EvalError', 'poker::EvalError'), ('evaluate::Evaluator', 'poker::Evaluator'), ('evaluate::lookup_table::LookupTable', 'poker::evaluate::LookupTable')]
GUARDED = ('card::Card', 'evaluate::eval::Eval', 'evaluate::Evaluator')


def public_name(s):
    out = s
    for i, (a, _) in enumerate(NAMES):
        out = re.sub(r'(?<![\w:])%s(?!\w)' % a.replace('::', r'::'), '\0%d\0' % i, out)
    for i, (_, b) in enumerate(NAMES):
        out = out.replace('\0%d\0' % i, b)
    return out


class Poly:
    """The type-checked crate, by name."""

    def __init__(self, poly):
        self.T = poly['types']
        self.fns = poly['fns']
        self.adts = {a['path']: a for a in poly['adts']}
        self.poly = poly

    def mentions(self, ty, path, seen=None):
        """Whether a value of this type can hold or point to one of the named type."""
        seen = set() if seen is None else seen
        if ty in seen:
            return False
        seen.add(ty)
        t = self.T[ty]
        k = t['k']
        if k == 'adt':
            if t['path'] == path:
                return True
            kids = [a for a in t['args'] if isinstance(a, int)]
            if t['crate'] == 'poker':
                kids += [f['ty'] for v in t['variants'] for f in v['fields']]
            return any(self.mentions(a, path, seen) for a in kids)
        if k in ('ref', 'ptr', 'array', 'slice'):
            return self.mentions(t['ty'], path, seen)
        if k == 'tuple':
            return any(self.mentions(a, path, seen) for a in t['tys'])
        # opaque types, projections: by name
        return re.search(r'(?<![\w:])%s(?!\w)' % path, t['name']) is not None

    def mutable(self, ty):
        """The guarded type a `&mut` in this type gives access to."""
        t = self.T[ty]
        if t['k'] == 'ref' and t.get('mut'):
            inner = self.T[t['ty']]
            # inside crate types that own a guarded value too, but not through generic library types
            if inner['k'] == 'adt' and inner['path'] in GUARDED:
                return inner['path']
            return None
        if t['k'] == 'tuple':
            return next((m for m in map(self.mutable, t['tys']) if m), None)
        if t['k'] == 'adt' and t['crate'] != 'poker':
            return next((m for m in map(self.mutable, [a for a in t['args'] if isinstance(a, int)]) if m), None)
        return None

    def assignable(self, ty, depth=0):
        """Whether code outside the crate can give a place of this type a value of its own."""
        t = self.T[ty]
        if t['k'] != 'adt':
            return t['k'] not in ('opaque',)
        if t['crate'] != 'poker':
            return True
        a = self.adts.get(t['path'])
        if a is None or depth > 4:
            return False
        if t['adt'] == 'struct':
            return any(f['vis'] == 'pub' and self.assignable(f['ty'], depth + 1) for v in t['variants'] for f in v['fields'])
        return bool(a['exported'])

    def builds(self, ty):
        """Whether code outside the crate can make arbitrary values of this type by hand."""
        t = self.T[ty]
        if t['k'] != 'adt' or t['crate'] != 'poker':
            return True
        a = self.adts.get(t['path'])
        if a is None or not a['exported']:
            return False
        if t['adt'] == 'struct':
            return all(f['vis'] == 'pub' and self.builds(f['ty']) for v in t['variants'] for f in v['fields'])
        return True

    def known(self, f):
        m = re.match(r'^(.*)::(\w+)$', f['path'])
        if not m:
            return False
        if f.get('trait_item') or '<' in m.group(1):
            p = f['path']
            return bool(re.match(r'^<(card::Card|evaluate::eval::Eval|evaluate::Evaluator|error::\w+) as std::clone::Clone>::clone$|'
                                 r'^<card::Card as std::str::FromStr>::from_str$|^<evaluate::Evaluator as std::default::Default>::default$|'
                                 r'^<card::ParseToIter<\w+> as |^card::ParseToIter::<\w+>::try_collect$', p))
        return m.group(2) in KNOWN.get(m.group(1), ())


INTS = [0, 1, 2, 3, 4, 5, 7, 12, 13, 14, 51, 52, 53, 64, 100, 255, 256, 322, 323, 1609, 7461, 7462, 7463, 65535, 2 ** 31 - 1, -1, 98306, 268442665, 69634, 8394515,
        16783383, 33564957, 67115551, 134224677, 268446761, 4098]


def sample_values(w, ty, tag, poly=None):
    """Values code outside the crate could pass: lists of functions of Refs."""
    T = w.P.types
    t = T[ty]
    k = t['k']
    if ty == w.card_ty:
        r, s = Dim('rank ' + tag, 13), Dim('suit ' + tag, 4)
        return [lambda h: w.card(r, s)]
    if ty == w.rank_ty:
        d = Dim('rank ' + tag, 13)
        return [lambda h: w.rank(d)]
    if ty == w.suit_ty:
        d = Dim('suit ' + tag, 4)
        return [lambda h: w.suit(d)]
    if ty == w.eval_ty:
        return [lambda h: domain(w).value(domain(w).dim(tag))]
    if ty == w.class_ty:
        def cv(h):
            K, v, rows = class_values(w)
            L = w.cached(('class dim', tag), lambda: Dim('class value ' + tag, K.size, label=K.label))
            return vrestrict(v, {K: (L, np.arange(K.size))})
        return [cv]
    if k == 'bool':
        return [lambda h: FALSE, lambda h: TRUE]
    if k == 'char':
        s = '2TAacshdx1\0\u00e9\u2660'
        d = Dim('char ' + tag, len(s), label=lambda i: s[i])
        return [lambda h: dimvar(d, [ord(c) for c in s], 'char')]
    if k in ('int', 'uint'):
        so = w.cached(('sort', ty), lambda: int_sort(w, t))
        lo, hi = (-(1 << (so[1] - 1)), (1 << (so[1] - 1)) - 1) if so[0] == 'i' else (0, (1 << so[1]) - 1)
        xs = [v for v in INTS if lo <= v <= hi]
        d = Dim('number ' + tag, len(xs), label=lambda i: xs[i])
        return [lambda h: dimvar(d, xs, so)]
    if k == 'str' or (k == 'adt' and norm(t['path']) == 'string::String'):
        wrap = Str if k == 'adt' else StrRef
        return [lambda h, s=s: wrap(sconst(s)) for s in ['', '2c', 'Ac', 'x', '10c', 'TS', 'As Kd', '\u2660']]
    if k == 'ref':
        it = T[t['ty']]
        if it['k'] == 'str':
            return sample_values(w, t['ty'], tag)
        if it['k'] == 'slice':
            out = []
            for n in (0, 1, 2, 5, 6):
                els = [sample_values(w, it['ty'], '%s%d' % (tag, i)) for i in range(n)]
                if it['ty'] == w.card_ty:
                    hands = [oracle.REPS[j] for j in (0, 10, 100, 322, 1600, 5000, 7461)] if n == 5 else []
                    for hand in hands:
                        out.append(lambda h, hand=hand: h.slice([w.card(int(r), int(s)) for r, s in hand]))
                    if n >= 5:
                        continue
                out.append(lambda h, els=els: h.slice([e[0](h) for e in els]))
            return out
        return [lambda h, f=f: h.ref(f(h)) for f in sample_values(w, t['ty'], tag)]
    if k == 'tuple':
        return product_values([sample_values(w, z, '%s.%d' % (tag, i)) for i, z in enumerate(t['tys'])], lambda fs: Agg(fs, ty))
    if k == 'array':
        n = t['len']
        return product_values([sample_values(w, t['ty'], '%s.%d' % (tag, i)) for i in range(n)], lambda fs: Arr(fs))
    if k == 'adt':
        if t['path'].endswith('Evaluator') and t['crate'] == 'poker':
            return [lambda h: w.evaluator().value]
        if t['path'].endswith('ParseCardError'):
            return [lambda h: parse_error(w, 'InvalidRank', sconst('xc'), const(ord('x'), 'char'))]
        if t['path'].endswith('EvalError'):
            return [lambda h: bad_size(w, usz(3))]
        if norm(t['path']) == 'option::Option':
            inner = sample_values(w, t['args'][0], tag)
            return [lambda h: variant(0, (), ty)] + [lambda h, f=f: variant(1, (f(h),), ty) for f in inner]
        if norm(t['path']) in ('vec::Vec', 'boxed::Box') and t['args']:
            out = []
            for n in (0, 1, 3):
                els = [sample_values(w, t['args'][0], '%s%d' % (tag, i)) for i in range(n)]
                out.append(lambda h, els=els: Vec(Arr([e[0](h) for e in els])))
            return out
        if t['crate'] == 'poker' and t['adt'] != 'struct':
            out = []
            for i, v in enumerate(t['variants']):
                out += product_values([sample_values(w, f['ty'], '%s.%s' % (tag, f['name'])) for f in v['fields']], lambda fs, i=i: variant(i, fs, ty))
            return out
        if t['crate'] == 'poker' and all(f['vis'] == 'pub' for f in t['variants'][0]['fields']):
            return product_values([sample_values(w, f['ty'], '%s.%s' % (tag, f['name'])) for f in t['variants'][0]['fields']], lambda fs: Agg(fs, ty))
    raise Unsupported('values of type %s' % t['name'])


def product_values(lists, make):
    out = []
    for combo in itertools.islice(itertools.product(*lists), 200):
        out.append(lambda h, combo=combo: make([f(h) for f in combo]))
    return out


def int_sort(w, t):
    from interp import Interp
    m = re.match(r'^([iu])(\d+|size)$', t['name'])
    if not m:
        raise Unsupported('numbers of type %s' % t['name'])
    return (m.group(1), 64 if m.group(2) == 'size' else int(m.group(2)))


def held_values(w, v, ty, want, guard=TRUE, depth=0):
    """[(guard, value)] of every value of type `want` inside."""
    if ty == want:
        return [(guard, v)]
    t = w.P.types[ty]
    k = t['k']
    out = []
    if depth > 6:
        return out
    if isinstance(v, Enum) and k == 'adt':
        for i, fs in v.vs.items():
            g = land(guard, eq(v.disc, const(i, VIDX)))
            if g is FALSE:
                continue
            for x, f in zip(fs, t['variants'][i]['fields']):
                out += held_values(w, x, f['ty'], want, g, depth + 1)
    elif isinstance(v, Agg) and k == 'adt' and t['variants']:
        for x, f in zip(v.fields, t['variants'][0]['fields']):
            out += held_values(w, x, f['ty'], want, guard, depth + 1)
    elif isinstance(v, Agg) and k == 'tuple':
        for x, z in zip(v.fields, t['tys']):
            out += held_values(w, x, z, want, guard, depth + 1)
    elif isinstance(v, Arr) and k == 'array':
        for x in v.items:
            out += held_values(w, x, t['ty'], want, guard, depth + 1)
    elif isinstance(v, Vec) and k == 'adt' and t['args'] and isinstance(t['args'][0], int):
        e = t['args'][0]
        if w.P.types[e]['k'] == 'slice':
            e = w.P.types[e]['ty']
        for x in content(v):
            out += held_values(w, x, e, want, guard, depth + 1)
    return out


def genuine(w, v, guard, kind, where):
    """Every value is one of the 52 cards, or one of the evaluations."""
    dims = sorted(set().union(guard.dims, *[t.dims for _, _, t in columns(v)]), key=lambda d: d.id)
    if points(*dims) > 3_000_000:
        raise Unsupported('a producer with too many inputs')
    g = table(guard, dims).reshape(-1)
    if kind == 'card':
        r, s, c = w.free_card(0)
        real = set(zip(*[table(t, [r, s]).reshape(-1).tolist() for _, _, t in columns(c)]))
        got = [table(t, dims).reshape(-1) for _, _, t in columns(v)]
    else:
        reg = domain(w).reg
        real = set(domain(w).rows)
        got = reg.normalise([np.zeros(len(g), dtype=np.int64) if t is None else table(t, dims).reshape(-1).astype(np.int64) for t in reg.align(v)])
    if not got:
        return 0
    rows = np.stack([np.asarray(a).astype(np.int64) for a in got], axis=1)
    u, first = np.unique(rows[g], axis=0, return_index=True)
    at = np.nonzero(g)[0]
    for row, k in zip(u.tolist(), first):
        if tuple(row) not in real:
            pt = {d: int(i) for d, i in zip(dims, np.unravel_index(int(at[k]), [d.size for d in dims]))} if dims else {}
            raise Broken(where, 'yields %s %s that is none of the real ones [%s]' % ('a card' if kind == 'card' else 'an evaluation', tuple(row), describe_point(w, pt, dims)))
    return len(u)


def C03(x):
    w = x.w
    p = Poly(x.poly)

    def fields(path, what):
        def f():
            a = p.adts.get(path)
            if a is None:
                raise Missing(path)
            t = p.T[a['ty']]
            n = 0
            for v in t['variants']:
                for fl in v['fields']:
                    n += 1
                    vis = fl['vis'] == 'pub' or t['adt'] != 'struct'
                    if vis and p.assignable(fl['ty']):
                        raise Broken('%s (%s)' % (path, a['span']), 'the field %s is public: code outside the crate can build or change %s' % (fl['name'], what))
            return '%d fields' % n
        return f
    for path, what in (('card::Card', 'cards'), ('evaluate::eval::Eval', 'evaluations'), ('evaluate::Evaluator', 'evaluators')):
        x.ob('fields of ' + path, 'no field that code outside the crate can set', fields(path, what))

    def mutators():
        n = 0
        for f in p.fns:
            s = f['sig']
            if not f['exported'] or s is None or f['path'].endswith('::clone_from'):
                continue
            n += 1
            for i in s['in']:
                m = p.mutable(i)
                if m:
                    raise Broken('%s (%s)' % (f['path'], f['span']), 'a public operation takes %s by mutable reference' % m)
            m = p.mutable(s['out'])
            if m:
                raise Broken('%s (%s)' % (f['path'], f['span']), 'a public operation gives a mutable reference to %s' % m)
        return '%d public operations' % n
    x.ob('no mutation', 'no public operation takes or gives a mutable reference to a card, an evaluation or an evaluator', mutators)

    new = []
    for f in p.fns:
        if not f['exported'] or f['kind'] not in ('Fn', 'AssocFn', 'Const', 'AssocConst') or p.known(f):
            continue
        if f['sig'] is not None:
            if any(p.mentions(f['sig']['out'], g) for g in GUARDED):
                new.append(f)
        elif f.get('body') and any(p.mentions(f['body']['locals'][0], g) for g in GUARDED):
            new.append(f)

    def known_list():
        return '%d exported items, %d of them producers the rules do not know' % (sum(1 for f in p.fns if f['exported']), len(new))
    x.ob('producers', 'every exported item that can yield a card, an evaluation or an evaluator is one the rules know, or is analysed', known_list)

    def producer(f, root):
        def go():
            where = '%s (%s)' % (f['path'], f['span'])
            out = f['sig']['out'] if f['sig'] else f['body']['locals'][0]
            if p.mentions(out, 'evaluate::Evaluator'):
                for i in (f['sig'] or {'in': []})['in']:
                    if any(p.builds(z) and not prim(p.T, z) for z in [deref_poly(p.T, i)]):
                        raise Broken(where, 'makes an evaluator from tables the caller supplies')
            if f['sig'] and f['sig']['unsafe']:
                raise Unsupported('an unsafe operation')
            dumps, gone = build.dump(extra=extra)
            if root in gone:
                raise Unsupported('cannot be called generally: %s' % gone[root])
            w2 = w.cached('extra world', lambda: World(Prog(os.path.join(dumps, 'vroots.mono.json'))))
            w2.gone = gone
            need(w2, root)
            body = w2.inst(root)['body']
            args = [sample_values(w2, body['locals'][1 + i], 'ab'[i] if i < 2 else 'c%d' % i) for i in range(body['argc'])]
            n = 0
            for combo in itertools.islice(itertools.product(*args), 400):
                q = run(w2, root, lambda h: [g(h) for g in combo])
                rt = w2.retty(root)
                for g, v in held_values(w2, q.value, rt, w2.card_ty):
                    n += genuine(w2, v, g, 'card', where)
                for g, v in held_values(w2, q.value, rt, w2.eval_ty):
                    n += genuine(w2, v, g, 'evaluation', where)
            return '%d values' % n
        return go
    extra = ''
    for k, f in enumerate(new):
        extra += extra_root(p, f, 'xr_%d' % k)
    for k, f in enumerate(new):
        x.ob('producer ' + f['path'], 'yields only the 52 cards and evaluations of hands', producer(f, 'xr_%d' % k))

    def made(root, args):
        def f():
            n = 0
            q = run(w, root, args)
            rt = w.retty(root)
            for g, v in held_values(w, q.value, rt, w.card_ty):
                n += genuine(w, v, g, 'card', w.where(root))
            for g, v in held_values(w, q.value, rt, w.eval_ty):
                n += genuine(w, v, g, 'evaluation', w.where(root))
            return '%d values' % n
        return f
    a, b = sample_values(w, w.argty('card_try_from_chars', 0), 'a')[0](None), sample_values(w, w.argty('card_try_from_chars', 1), 'b')[0](None)
    x.ob('Card::new', 'yields only the 52 cards', made('card_new', lambda h: [w.rank(Dim('rank', 13)), w.suit(Dim('suit', 4))]))
    x.ob('Card::try_from_chars', 'yields only the 52 cards (characters that matter; all of them in C05)', made('card_try_from_chars', lambda h: [a, b]))
    x.ob('Card::from_str', 'yields only the 52 cards (characters that matter; all of them in C04)', made('card_from_str', lambda h: [StrRef(concat([chrterm(a), chrterm(b)]))]))
    x.ob('deck::generate', 'yields only the 52 cards', made('deck_vec', lambda h: []))

    def variants():
        w.rank_order()
        w.suit_order()
        return '13 ranks, 4 suits'
    x.ob('ranks and suits', 'there are 13 ranks and 4 suits', variants)


def prim(T, ty):
    return T[ty]['k'] in ('int', 'uint', 'bool', 'char', 'str') or (T[ty]['k'] == 'adt' and T[ty]['crate'] == 'poker' and not T[ty]['path'].endswith('LookupTable'))


def deref_poly(T, ty):
    while T[ty]['k'] in ('ref', 'ptr'):
        ty = T[ty]['ty']
    return ty


def extra_root(p, f, name):
    path = public_name(f['path'])
    if not path.startswith(('<', 'poker::')):
        path = 'poker::' + path
    if f['sig'] is None:
        return 'pub fn %s() -> %s { %s }\n' % (name, public_name(p.T[f['body']['locals'][0]]['name']), path)
    ins = [public_name(p.T[i]['name']) for i in f['sig']['in']]
    ret = public_name(p.T[f['sig']['out']]['name'])
    m = re.match(r'^(<.*>)::(\w+)$', path)
    params = ', '.join('a%d: %s' % (i, t) for i, t in enumerate(ins))
    return 'pub fn %s(%s) -> %s { %s(%s) }\n' % (name, params, ret, path, ', '.join('a%d' % i for i in range(len(ins))))


# ------------------------------------------------------------------ C26
def sections(name):
    out = {}
    cur = None
    with open(os.path.join(build.VERIF, 'witness', name + '.rs')) as f:
        for i, line in enumerate(f, 1):
            m = re.match(r'// @(.*)', line.strip())
            if m:
                cur = m.group(1).strip()
                out[cur] = []
            elif cur:
                out[cur].append(i)
    return out


def C26(x):
    res = {}

    def result(file, feats):
        if (file, feats) not in res:
            res[file, feats] = build.witness(file, feats)
        return res[file, feats]
    for file, use, rule in (('const_use', 'compile-time use', 'usable in constant expressions'),
                            ('surface', 'use', 'compiles where a caller writes it')):
        for feats in (True, False):
            how = 'default features' if feats else 'no default features'

            def builds(file=file, feats=feats, how=how):
                ok, errs, log = result(file, feats)
                own = [e for e in errs if e[0] is None]
                if own:
                    raise Broken(own[0][2], 'the crate does not build with %s: %s' % (how, own[0][1]))
                if not ok and not errs:
                    raise Unsupported('the build fails: %s' % log[-300:])
                return 'compiled'
            if file == 'const_use':
                x.ob('crate with ' + how, 'the crate compiles', builds)
            for sec, lines in sections(file).items():
                def sect(file=file, use=use, sec=sec, lines=lines, feats=feats, how=how):
                    ok, errs, log = result(file, feats)
                    if ok:
                        return '%d lines' % len(lines)
                    if any(e[0] is None for e in errs) or not errs:
                        raise Unsupported('the crate does not build')
                    for line, msg, at in errs:
                        if line in lines:
                            raise Broken('witness/%s.rs:%d' % (file, line), 'a documented %s does not compile with %s: %s' % (use, how, msg))
                    return '%d lines' % len(lines)
                x.ob('%s with %s%s' % (sec, how, '' if file == 'const_use' else ', at run time'), rule, sect)


# ------------------------------------------------------------------ C31
SAMESIZE = ['As', 'as', 'aS', 'AS', 'Ad', 'A', 'A ', 'As ', ' As', 'Asd', 'sA', '\u00e9s', '\u212as', 'Ks', 'e\u0301', '\u00e9']


def C31(x):
    """Values and errors copy faithfully and compare by what they hold."""
    w = x.w

    def finite(name, make, size):
        def clone():
            v = make(Dim(name, size))
            q = run(w, name + '_clone', lambda h: [h.ref(v)])
            same_value(q.value, v, w.where(name + '_clone'), 'cloning changes the value', w)
            return size

        def equal(root, want):
            def f():
                a, b = Dim(name, size), Dim('other ' + name, size)
                q = run(w, root, lambda h: [h.ref(make(a)), h.ref(make(b))])
                g = np.indices((size, size))
                from checks_card import expect
                return expect(table(q.value, [a, b]), (g[0] == g[1]) == want, [a, b], w.where(root), 'equality is not identity of the values')
            return f

        def hashing():
            from checks_card import hash_log
            d = Dim(name, size)
            q, h = hash_log(w, name + '_hash', make(d))
            if any(g is not TRUE for g, t in h):
                raise Unsupported('a conditional hash write')
            n = len(set(zip(*[table(t, [d]).tolist() for g, t in h])))
            if n != size:
                raise Broken(w.where(name + '_hash'), 'different values feed the hasher the same data: %d distinct inputs for %d values' % (n, size))
            return size
        x.ob(name + ' eq', 'equal exactly when the same, over all pairs', equal(name + '_eq', True))
        x.ob(name + ' ne', 'the negation of equality, over all pairs', equal(name + '_ne', False))
        x.ob(name + ' hash', 'a function of the value that differs between values', hashing)
        x.ob(name + ' clone', 'cloning is the identity', clone)
    finite('rank', w.rank, 13)
    finite('suit', w.suit, 4)

    def class_ne():
        K, v, rows = class_values(w)
        L = Dim('other class value', K.size, label=K.label)
        u = vrestrict(v, {K: (L, np.arange(K.size))})
        q = run(w, 'class_ne', lambda h: [h.ref(v), h.ref(u)])
        ids = {r: i for i, r in enumerate(sorted(set(rows)))}
        k = np.array([ids[r] for r in rows])
        from checks_card import expect
        return expect(table(q.value, [K, L]), k[:, None] != k[None, :], [K, L], w.where('class_ne'), 'inequality is not difference of the values')
    x.ob('class ne', 'unequal exactly when category or ranks differ, over all 429 x 429 class values', class_ne)

    def class_clone():
        K, v, rows = class_values(w)
        q = run(w, 'class_clone', lambda h: [h.ref(v)])
        same_value(q.value, v, w.where('class_clone'), 'cloning changes the class', w)
        return K.size
    x.ob('class clone', 'cloning is the identity', class_clone)

    names = ['InvalidLength', 'InvalidRank', 'InvalidSuit']

    def text_pairs():
        ts = SAMESIZE + TEXTS
        return [(a, b) for a in ts for b in ts]

    def perr(root, positive, one, two):
        def f():
            a, b, c, d = sym('a text', 'str'), sym('another text', 'str'), charof('c'), charof('d')
            want = FALSE if one != two else eq(a, b) if one == 'InvalidLength' else land(eq(a, b), eq(c, d))
            try:
                q = run(w, root, lambda h: [h.ref(parse_error(w, one, a, c)), h.ref(parse_error(w, two, b, d))])
                got = q.value if positive else lnot(q.value)
                if got is want:
                    return 'all texts and characters'
                why = 'the result is not known to be equality of the parts'
            except Unsupported as e:
                why = str(e)
            for s, t in text_pairs():
                for e, f in (('s', 's'), ('s', 'S'), ('s', '\u017f'), ('\u00e9', '\u00e8')) if s == t else (('s', 's'),):
                    try:
                        q = run(w, root, lambda h: [h.ref(parse_error(w, one, sconst(s), const(ord(e), 'char'))),
                                                    h.ref(parse_error(w, two, sconst(t), const(ord(f), 'char')))])
                    except Unsupported:
                        continue
                    r = one == two and s == t and (e == f or one == 'InvalidLength')
                    if q.value.is_const and bool(q.value.data) != (r == positive):
                        raise Broken(w.where(root), 'comparing the errors %s(%r, %r) and %s(%r, %r) gives %s' % (one, s, e, two, t, f, bool(q.value.data)))
            raise Unsupported(why)
        return f
    for one in names:
        for two in names:
            x.ob('%s == %s' % (one, two), 'equal exactly when the rule, the input and the character are the same', perr('perr_eq', True, one, two))
            x.ob('%s != %s' % (one, two), 'the negation of equality', perr('perr_ne', False, one, two))

    def is_same(q, want, root):
        if not same(q.value, want):
            same_value(q.value, want, w.where(root), 'cloning changes the error', w)

    def pclone(name):
        def f():
            e = parse_error(w, name, sym('a text', 'str'), charof('c'))
            is_same(run(w, 'perr_clone', lambda h: [h.ref(e)]), e, 'perr_clone')
            for old in names:
                q = run(w, 'perr_clone_from', lambda h: [parse_error(w, old, sym('an old text', 'str'), charof('d')), h.ref(e)])
                is_same(q, e, 'perr_clone_from')
            return 'all texts and characters'
        return f
    for name in names:
        x.ob(name + ' clone', 'cloning is the identity', pclone(name))

    def sizes(root, positive):
        def f():
            n, m = sym('n', USIZE), sym('m', USIZE)
            try:
                q = run(w, root, lambda h: [h.ref(bad_size(w, n)), h.ref(bad_size(w, m))])
                if (q.value if positive else lnot(q.value)) is eq(n, m):
                    return 'all numbers'
                why = 'the result is not known to be equality of the numbers'
            except Unsupported as e:
                why = str(e)
            vs = [0, 1, 2, 3, 4, 5, 6, 52, 255, 256, 257, 261, 2 ** 16, 2 ** 16 + 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1]
            for i in vs:
                for j in vs:
                    q = run(w, root, lambda h: [h.ref(bad_size(w, usz(i))), h.ref(bad_size(w, usz(j)))])
                    if q.value.is_const and bool(q.value.data) != ((i == j) == positive):
                        raise Broken(w.where(root), 'comparing the hand-size errors for %d and %d cards gives %s' % (i, j, bool(q.value.data)))
            raise Unsupported(why)
        return f
    x.ob('hand size ==', 'equal exactly when the numbers are', sizes('eerr_eq', True))
    x.ob('hand size !=', 'the negation of equality', sizes('eerr_ne', False))

    def mixed(root, positive):
        def f():
            for k in (0, 1, 4, 5):
                cs = [w.free_card(i)[2] for i in range(k)]
                for a, b in ((0, 1), (1, 0)):
                    es = [not_unique(w, cs), bad_size(w, sym('n', USIZE))]
                    q = run(w, root, lambda h: [h.ref(es[a]), h.ref(es[b])])
                    never(q.value if positive else lnot(q.value), w.where(root), 'a duplicate error equals a hand-size error', w)
            return 8
        return f
    x.ob('different errors ==', 'a duplicate error never equals a hand-size error', mixed('eerr_eq', True))
    x.ob('different errors !=', 'the negation of equality', mixed('eerr_ne', False))

    def cards_(root, positive, n):
        # lists that agree everywhere, in all places but one, in no place, or are one another's reordering
        def f():
            a, b = [w.free_card(i) for i in range(n)], [w.free_card(n + i) for i in range(n)]
            q = run(w, root, lambda h: [h.ref(not_unique(w, [c[2] for c in a])), h.ref(not_unique(w, [c[2] for c in b]))])
            t = q.value
            if t.syms or t.dims - {d for c in a + b for d in c[:2]}:
                raise Unsupported('the comparison depends on more than the cards')
            A, B = [], []
            if n == 1:
                g = np.indices((52, 52)).reshape(2, -1)
                A, B = g[:1].T, g[1:].T
            else:
                rnd = np.random.default_rng(3)
                for k in range(n):
                    for u in range(52):
                        base = rnd.integers(0, 52, n)
                        for v in range(52):
                            p, r = base.copy(), base.copy()
                            p[k], r[k] = u, v
                            A.append(p)
                            B.append(r)
                for _ in range(500):
                    p = rnd.integers(0, 52, n)
                    A += [p, p]
                    B += [rnd.permutation(p), rnd.integers(0, 52, n)]
                A, B = np.array(A), np.array(B)
            env = {}
            for cs, ids in ((a, A), (b, B)):
                for i, c in enumerate(cs):
                    env[c[0]], env[c[1]] = ids[:, i] // 4, ids[:, i] % 4
            got = np.broadcast_to(evaluate(t, env), (len(A),))
            want = (A == B).all(axis=1) == positive
            bad = np.flatnonzero(got != want)
            if len(bad):
                i = bad[0]
                raise Broken(w.where(root), 'comparing the duplicate errors for %s and for %s gives %s' % (
                    hand_text(np.stack([A[i] // 4, A[i] % 4], 1)), hand_text(np.stack([B[i] // 4, B[i] % 4], 1)), bool(got[i])))
            parts = [eq_cards(w, p[2], r[2]) for p, r in zip(a, b)]
            full = land(TRUE, *parts)
            return '%d pairs of lists%s' % (len(A), ', and syntactically card by card' if (t if positive else lnot(t)) is full else '')
        return f

    def eq_cards(w, p, r):
        return lnot(differ(p, r))
    for n in (1, 2, 3, 5, 6, 9, 52):
        x.ob('duplicates == (%d cards)' % n, 'equal exactly when the lists of cards are, position by position', cards_('eerr_eq', True, n))
        x.ob('duplicates != (%d cards)' % n, 'the negation of equality', cards_('eerr_ne', False, n))

    def lengths(root, positive):
        def f():
            k = 0
            for n in (0, 1, 2, 5, 8):
                for m in (0, 1, 2, 5, 8):
                    if n != m:
                        cs = [w.free_card(i)[2] for i in range(max(n, m))]
                        q = run(w, root, lambda h: [h.ref(not_unique(w, cs[:n])), h.ref(not_unique(w, cs[:m]))])
                        never(q.value if positive else lnot(q.value), w.where(root), 'lists of %d and %d cards compare equal' % (n, m), w)
                        k += 1
            return k
        return f
    x.ob('duplicates ==, different lengths', 'lists of different lengths are never equal', lengths('eerr_eq', True))
    x.ob('duplicates !=, different lengths', 'the negation of equality', lengths('eerr_ne', False))

    def eclone():
        k = 0
        for n in (0, 1, 2, 5, 8, 52):
            e = not_unique(w, [w.free_card(i)[2] for i in range(n)])
            try:
                is_same(run(w, 'eerr_clone', lambda h: [h.ref(e)]), e, 'eerr_clone')
            except Unsupported:
                # given cards may settle it the other way
                for ids in ([0, 0], [5, 3, 5], [51, 40, 3, 3, 0], [9, 9, 9, 9, 9, 9, 1, 1], list(range(51, -1, -1)) + [7]):
                    g = not_unique(w, [w.card(i // 4, i % 4) for i in ids])
                    is_same(run(w, 'eerr_clone', lambda h: [h.ref(g)]), g, 'eerr_clone')
                raise
            for m in (0, 1, 7):
                old = not_unique(w, [w.free_card(n + i)[2] for i in range(m)])
                is_same(run(w, 'eerr_clone_from', lambda h: [old, h.ref(e)]), e, 'eerr_clone_from')
                k += 1
        e = bad_size(w, sym('n', USIZE))
        is_same(run(w, 'eerr_clone', lambda h: [h.ref(e)]), e, 'eerr_clone')
        is_same(run(w, 'eerr_clone_from', lambda h: [bad_size(w, sym('m', USIZE)), h.ref(e)]), e, 'eerr_clone_from')
        return k + 2
    x.ob('evaluation error clone', 'cloning is the identity', eclone)
