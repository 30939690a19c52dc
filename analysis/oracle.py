"""The rules of poker and the documented formats, written down independently of the crate."""
import itertools
import numpy as np

RANKS = ['Two', 'Three', 'Four', 'Five', 'Six', 'Seven', 'Eight', 'Nine', 'Ten', 'Jack', 'Queen', 'King', 'Ace']
RANK_CHARS = '23456789TJQKA'
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
SUITS = ['Clubs', 'Diamonds', 'Hearts', 'Spades']
SUIT_CHARS = {'Clubs': 'c', 'Diamonds': 'd', 'Hearts': 'h', 'Spades': 's'}
SUIT_PRETTY = {'Clubs': '\u2663', 'Diamonds': '\u2666', 'Hearts': '\u2665', 'Spades': '\u2660'}
SUIT_BIT = {'Spades': 12, 'Hearts': 13, 'Diamonds': 14, 'Clubs': 15}
SINGULAR = ['two', 'three', 'four', 'five', 'six', 'seven', 'eight', 'nine', 'ten', 'jack', 'queen', 'king', 'ace']

# categories, weakest first, and the names of their fields, most significant first
CATEGORIES = [
    ('HighCard', ('high_rank',)),
    ('Pair', ('pair',)),
    ('TwoPair', ('first_pair', 'second_pair')),
    ('ThreeOfAKind', ('trips',)),
    ('Straight', ('high_rank',)),
    ('Flush', ('high_rank',)),
    ('FullHouse', ('trips', 'pair')),
    ('FourOfAKind', ('quads',)),
    ('StraightFlush', ('high_rank',)),
]
CAT = {n: i for i, (n, _) in enumerate(CATEGORIES)}
PREDICATES = {
    'HighCard': 'is_high_card', 'Pair': 'is_pair', 'TwoPair': 'is_two_pair', 'ThreeOfAKind': 'is_three_of_a_kind',
    'Straight': 'is_straight', 'Flush': 'is_flush', 'FullHouse': 'is_full_house',
    'FourOfAKind': 'is_four_of_a_kind', 'StraightFlush': 'is_straight_flush',
}


def card_int(r, suit):
    return 1 << (16 + r) | 1 << SUIT_BIT[suit] | r << 8 | PRIMES[r]


def score(ranks, flush):
    """(category, class ranks, full comparison key) of five ranks; None if no such hand exists."""
    cnt = {}
    for r in ranks:
        cnt[r] = cnt.get(r, 0) + 1
    if max(cnt.values()) > 4:
        return None
    by = sorted(cnt, key=lambda r: (cnt[r], r), reverse=True)
    shape = tuple(cnt[r] for r in by)
    if shape == (1, 1, 1, 1, 1):
        top = None
        if by[0] - by[4] == 4:
            top = by[0]
        elif by == [12, 3, 2, 1, 0]:
            top = 3
        if top is not None:
            c = 'StraightFlush' if flush else 'Straight'
            return c, (top,), (CAT[c], top)
        c = 'Flush' if flush else 'HighCard'
        return c, (by[0],), (CAT[c],) + tuple(by)
    if flush:
        return None
    c, n = {(4, 1): ('FourOfAKind', 1), (3, 2): ('FullHouse', 2), (3, 1, 1): ('ThreeOfAKind', 1),
            (2, 2, 1): ('TwoPair', 2), (2, 1, 1, 1): ('Pair', 1)}[shape]
    return c, tuple(by[:n]), (CAT[c],) + tuple(by)


def _build():
    keys = {}
    table = np.full((2,) + (13,) * 5, -1, dtype=np.int32)
    hands = []
    for ms in itertools.combinations_with_replacement(range(13), 5):
        for flush in (0, 1):
            s = score(ms, bool(flush))
            if s is not None:
                keys[s[2]] = (s[0], s[1], ms, bool(flush))
                hands.append((ms, flush, s[2]))
    order = sorted(keys, reverse=True)          # strongest first: 0 = royal flush
    index = {k: i for i, k in enumerate(order)}
    for ms, flush, k in hands:
        for p in set(itertools.permutations(ms)):
            table[(flush,) + p] = index[k]
    classes = [(k,) + keys[k] for k in order]   # (key, category, class ranks, example ranks, flush)
    return classes, table


CLASSES, TABLE = _build()
NCLASS = len(CLASSES)
assert NCLASS == 7462


def representative(k):
    """Five (rank, suit index) pairs of a hand of class k."""
    _, cat, _, ms, flush = CLASSES[k]
    if flush:
        return [(r, 3) for r in ms]
    used = {}
    out = []
    for r in ms:
        s = used.get(r, 0)
        used[r] = s + 1
        out.append((r, s))
    if len(set(s for _, s in out)) == 1:
        out[-1] = (out[-1][0], 1)
    # avoid an accidental flush
    assert len(set(out)) == 5 and len(set(s for _, s in out)) > 1
    return out


REPS = np.array([representative(k) for k in range(NCLASS)])      # (7462, 5, 2)


def plural(r):
    s = SINGULAR[r]
    return s + 'es' if s == 'six' else s + 's'


def class_text(cat, rs):
    if cat == 'HighCard':
        return 'High card, ' + SINGULAR[rs[0]]
    if cat == 'Pair':
        return 'Pair, ' + plural(rs[0])
    if cat == 'TwoPair':
        return 'Two pair, %s and %s' % (plural(rs[0]), plural(rs[1]))
    if cat == 'ThreeOfAKind':
        return 'Three of a kind, ' + plural(rs[0])
    if cat == 'Straight':
        return 'Straight, %s-high' % SINGULAR[rs[0]]
    if cat == 'Flush':
        return 'Flush, %s-high' % SINGULAR[rs[0]]
    if cat == 'FullHouse':
        return 'Full house, %s over %s' % (plural(rs[0]), plural(rs[1]))
    if cat == 'FourOfAKind':
        return 'Four of a kind, ' + plural(rs[0])
    return 'Royal flush' if rs[0] == 12 else 'Straight flush, %s-high' % SINGULAR[rs[0]]


def all_hands():
    """All 2,598,960 five-card hands as card indices 0..51 (rank * 4 + suit)."""
    n = 52
    a = np.arange(n)
    out = []
    import math
    total = math.comb(52, 5)
    h = np.fromiter(itertools.chain.from_iterable(itertools.combinations(range(n), 5)), dtype=np.int8, count=total * 5)
    return h.reshape(total, 5).astype(np.int64)


def hand_class(r, s):
    """Class index of hands given as arrays (..., 5) of ranks and suits (distinct cards)."""
    flush = np.all(s == s[..., :1], axis=-1).astype(np.int64)
    return TABLE[flush, r[..., 0], r[..., 1], r[..., 2], r[..., 3], r[..., 4]]
