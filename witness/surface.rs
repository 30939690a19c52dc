//! The public surface other than shuffling, used as its documentation shows: this file compiles
//! exactly when all of it is there.  Nothing in it is ever run.
#![allow(dead_code)]
use poker::{box_cards, card, cards, deck, Card, Eval, EvalClass, EvalError, Evaluator, ParseCardError, Rank, Suit};

// @decks
fn deck() -> Vec<Card> { deck::generate().collect() }

// @parsing
fn parse(s: &str) -> Result<Card, ParseCardError> { s.parse() }
fn from_chars(r: char, s: char) -> Result<Card, ParseCardError> { Card::try_from_chars(r, s) }
fn rank_of(c: char) -> Result<Rank, char> { Rank::try_from(c) }
fn suit_of(c: char) -> Result<Suit, char> { Suit::try_from(c) }
fn several(v: &[String]) -> Result<Vec<Card>, ParseCardError> { Card::parse_to_iter(v).try_collect() }

// @macros
fn one() -> [Card; 2] { [card!(Ace, Spades), card!(Ace of Spades)] }
fn one_text() -> Result<Card, ParseCardError> { card!("As") }
fn texts() -> Result<Box<[Card]>, ParseCardError> { cards!("As", "Kd", "2c").try_collect() }
fn text() -> Result<Vec<Card>, ParseCardError> { cards!("As Kd 2c").try_collect() }
fn boxed(a: &[Card], b: &[Card]) -> Box<[Card]> { box_cards!(a, b) }

// @texts
fn card_texts(c: Card) -> [String; 3] { [c.rank_suit_string(), c.to_string(), format!("{:?}", c)] }
fn rank_suit_texts(c: Card) -> [String; 2] { [c.rank().to_string(), c.suit().to_string()] }
fn eval_texts(e: Eval) -> [String; 4] { [e.to_string(), format!("{:?}", e), e.class().to_string(), format!("{:?}", e.class())] }
fn error_texts(p: &ParseCardError, e: &EvalError) -> [String; 2] { [p.to_string(), e.to_string()] }

// @evaluation
fn evaluator() -> (Evaluator, Evaluator) { (Evaluator::new(), Evaluator::default()) }
fn evaluate(e: &Evaluator, v: &Vec<Card>) -> [Result<Eval, EvalError>; 3] { [e.evaluate(v), e.evaluate(&v[..]), e.evaluate([v[0]; 5])] }

// @comparing
fn order(a: Card, b: Card) -> (std::cmp::Ordering, bool, bool) { (a.cmp(&b), a < b, a == b) }
fn ranks(a: Rank, b: Rank) -> (std::cmp::Ordering, bool) { (a.cmp(&b), a < b) }
fn evals(a: Eval, b: Eval) -> (std::cmp::Ordering, bool, bool, bool) { (a.cmp(&b), a < b, a == b, a.is_better_than(b)) }
fn classes(a: EvalClass, b: EvalClass) -> (std::cmp::Ordering, bool, bool) { (a.cmp(&b), a < b, a == b) }
fn best(v: &[Eval]) -> Option<&Eval> { v.iter().max() }

// @hashing
fn hashed<T: std::hash::Hash + Eq + Copy>() {}
fn hashes() { hashed::<Card>(); hashed::<Eval>(); }

// @errors
fn error<T: std::error::Error + Clone + Eq + Send + Sync + 'static>() {}
fn errors() { error::<ParseCardError>(); error::<EvalError>(); }

// @matching
fn class_parts(c: EvalClass) -> Rank {
    match c {
        EvalClass::HighCard { high_rank } | EvalClass::Straight { high_rank } | EvalClass::Flush { high_rank } | EvalClass::StraightFlush { high_rank } => high_rank,
        EvalClass::Pair { pair } => pair,
        EvalClass::TwoPair { first_pair, second_pair } => if first_pair > second_pair { first_pair } else { second_pair },
        EvalClass::ThreeOfAKind { trips } => trips,
        EvalClass::FullHouse { trips, pair } => if trips > pair { trips } else { pair },
        EvalClass::FourOfAKind { quads } => quads,
    }
}
fn parse_error_parts(e: ParseCardError) -> (String, Option<char>) {
    match e {
        ParseCardError::InvalidLength { original_input } => (original_input, None),
        ParseCardError::InvalidRank { original_input, incorrect_char } | ParseCardError::InvalidSuit { original_input, incorrect_char } => (original_input, Some(incorrect_char)),
    }
}
fn eval_error_parts(e: EvalError) -> (Vec<Card>, usize) {
    match e {
        EvalError::CardsNotUnique(v) => (v, 0),
        EvalError::InvalidHandSize(n) => (vec![], n),
    }
}
