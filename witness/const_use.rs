//! Every item here is a constant expression over the public interface: this file compiles exactly
//! when the documented compile-time use works.  Nothing in it is ever run.
#![allow(dead_code)]
use poker::{card, cards, Card, Eval, EvalClass, Rank, Suit};

// @card construction and accessors
const A: Card = Card::new(Rank::Ace, Suit::Spades);
const A_RANK: Rank = A.rank();
const A_SUIT: Suit = A.suit();
const A_INT: i32 = A.unique_integer();
static DECK_TOP: [Card; 2] = [A, Card::new(Rank::Two, Suit::Clubs)];
const LEN: [(); (A.unique_integer() as usize >> 28) & 1] = [(); 1];
const fn made(r: Rank, s: Suit) -> (Card, Rank, Suit, i32) {
    let c = Card::new(r, s);
    (c, c.rank(), c.suit(), c.unique_integer())
}
const MADE: (Card, Rank, Suit, i32) = made(Rank::Ten, Suit::Hearts);

// @rank and suit characters
const RANK_CHAR: char = Rank::Queen.as_char();
const SUIT_CHAR: char = Suit::Diamonds.as_char();
const SUIT_PRETTY: char = Suit::Hearts.as_pretty_char();
const fn chars(c: Card) -> (char, char, char) { (c.rank().as_char(), c.suit().as_char(), c.suit().as_pretty_char()) }

// @macros
const QH: Card = card!(Queen, Hearts);
const QH2: Card = card!(Queen of Hearts);
const HAND: [Card; 3] = cards!(Two, Clubs; Ace, Spades; Ten, Diamonds);
const HAND2: [Card; 3] = cards!(Two of Clubs, Ace of Spades, Ten of Diamonds);
static STATIC_HAND: [Card; 5] = cards!(Ten of Clubs, Jack of Clubs, Queen of Clubs, King of Clubs, Ace of Clubs);

// @published constants
const BEST: Eval = Eval::BEST;
const WORST: Eval = Eval::WORST;
static STATIC_BEST: Eval = Eval::BEST;

// @class
const BEST_CLASS: EvalClass = Eval::BEST.class();
const fn class_of(e: Eval) -> EvalClass { e.class() }

// @comparisons
const BETTER: bool = Eval::BEST.is_better_than(Eval::WORST);
const WORSE: bool = Eval::BEST.is_worse_than(Eval::WORST);
const EQUAL: bool = Eval::BEST.is_equal_to(Eval::WORST);
const fn stronger(a: Eval, b: Eval) -> Eval { if a.is_better_than(b) { a } else { b } }
const STRONGER: Eval = stronger(Eval::BEST, Eval::WORST);

// @predicates
const PREDICATES: [bool; 10] = [
    Eval::BEST.is_high_card(),
    Eval::BEST.is_pair(),
    Eval::BEST.is_two_pair(),
    Eval::BEST.is_three_of_a_kind(),
    Eval::BEST.is_straight(),
    Eval::BEST.is_flush(),
    Eval::BEST.is_full_house(),
    Eval::BEST.is_four_of_a_kind(),
    Eval::BEST.is_straight_flush(),
    Eval::BEST.is_royal_flush(),
];
