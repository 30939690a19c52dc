//! The public surface of `poker`, named with concrete types.  These functions are never run: they
//! are the entry points from which the analyser walks the crate.  Only public names are used.
#![allow(missing_docs)]
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::cmp::Ordering;

use poker::card::ParseToIter;
use poker::{box_cards, card, cards, deck, Card, Eval, EvalClass, EvalError, Evaluator, ParseCardError, Rank, Suit};

/// A hasher whose observations the analyser records.
pub struct Probe(pub u64);
impl Hasher for Probe {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _b: &[u8]) { self.0 = 0; }
}

// ---- cards
pub fn card_new(r: Rank, s: Suit) -> Card { Card::new(r, s) }
pub fn card_rank(c: Card) -> Rank { c.rank() }
pub fn card_suit(c: Card) -> Suit { c.suit() }
pub fn card_int(c: Card) -> i32 { c.unique_integer() }
pub fn card_eq(a: &Card, b: &Card) -> bool { a == b }
pub fn card_ne(a: &Card, b: &Card) -> bool { a != b }
pub fn card_hash(a: &Card, h: &mut Probe) { a.hash(h) }
pub fn card_clone(a: &Card) -> Card { a.clone() }
pub fn card_cmp(a: &Card, b: &Card) -> Ordering { a.cmp(b) }
pub fn card_partial_cmp(a: &Card, b: &Card) -> Option<Ordering> { a.partial_cmp(b) }
pub fn card_lt(a: &Card, b: &Card) -> bool { a < b }
pub fn card_le(a: &Card, b: &Card) -> bool { a <= b }
pub fn card_gt(a: &Card, b: &Card) -> bool { a > b }
pub fn card_ge(a: &Card, b: &Card) -> bool { a >= b }
pub fn card_max(a: Card, b: Card) -> Card { a.max(b) }
pub fn card_min(a: Card, b: Card) -> Card { a.min(b) }
pub fn card_string(c: Card) -> String { c.rank_suit_string() }
pub fn card_display(c: &Card) -> String { c.to_string() }
pub fn card_debug(c: &Card) -> String { format!("{:?}", c) }
pub fn card_from_str(s: &str) -> Result<Card, ParseCardError> { Card::from_str(s) }
pub fn card_parse(s: &str) -> Result<Card, ParseCardError> { s.parse() }
pub fn card_try_from_chars(r: char, s: char) -> Result<Card, ParseCardError> { Card::try_from_chars(r, s) }

// ---- ranks and suits
pub fn rank_char(r: Rank) -> char { r.as_char() }
pub fn rank_display(r: &Rank) -> String { r.to_string() }
pub fn rank_try_from(c: char) -> Result<Rank, char> { Rank::try_from(c) }
pub fn rank_cmp(a: &Rank, b: &Rank) -> Ordering { a.cmp(b) }
pub fn rank_partial_cmp(a: &Rank, b: &Rank) -> Option<Ordering> { a.partial_cmp(b) }
pub fn rank_lt(a: &Rank, b: &Rank) -> bool { a < b }
pub fn rank_le(a: &Rank, b: &Rank) -> bool { a <= b }
pub fn rank_gt(a: &Rank, b: &Rank) -> bool { a > b }
pub fn rank_ge(a: &Rank, b: &Rank) -> bool { a >= b }
pub fn rank_max(a: Rank, b: Rank) -> Rank { a.max(b) }
pub fn rank_min(a: Rank, b: Rank) -> Rank { a.min(b) }
pub fn rank_eq(a: &Rank, b: &Rank) -> bool { a == b }
pub fn rank_ne(a: &Rank, b: &Rank) -> bool { a != b }
pub fn rank_hash(a: &Rank, h: &mut Probe) { a.hash(h) }
pub fn rank_clone(a: &Rank) -> Rank { a.clone() }
pub fn suit_char(s: Suit) -> char { s.as_char() }
pub fn suit_pretty_char(s: Suit) -> char { s.as_pretty_char() }
pub fn suit_display(s: &Suit) -> String { s.to_string() }
pub fn suit_try_from(c: char) -> Result<Suit, char> { Suit::try_from(c) }
pub fn suit_eq(a: &Suit, b: &Suit) -> bool { a == b }
pub fn suit_ne(a: &Suit, b: &Suit) -> bool { a != b }
pub fn suit_hash(a: &Suit, h: &mut Probe) { a.hash(h) }
pub fn suit_clone(a: &Suit) -> Suit { a.clone() }

// ---- parsing several cards
pub type Strs<'a> = std::vec::IntoIter<&'a str>;
pub fn parse_iter_next(s: &str) -> Option<Result<Card, ParseCardError>> {
    Card::parse_to_iter([s]).next()
}
pub fn parse_iter_vec(v: Vec<&str>) -> Vec<Result<Card, ParseCardError>> { Card::parse_to_iter(v).collect() }
pub fn parse_iter_strings(v: Vec<String>) -> Vec<Result<Card, ParseCardError>> { Card::parse_to_iter(v).collect() }
pub fn parse_iter_try(v: Vec<&str>) -> Result<Vec<Card>, ParseCardError> { Card::parse_to_iter(v).try_collect() }
/// The iterator of parsed cards, consumed in the ways an iterator can be.
pub type Item = Result<Card, ParseCardError>;
pub fn pi_hint(v: Vec<&str>) -> ((usize, Option<usize>), Option<Item>, (usize, Option<usize>), Vec<Item>) {
    let mut i = Card::parse_to_iter(v);
    let h = i.size_hint();
    let a = i.next();
    let g = i.size_hint();
    (h, a, g, i.collect())
}
pub fn pi_fold(v: Vec<&str>) -> Vec<Item> { Card::parse_to_iter(v).fold(Vec::new(), |mut v, x| { v.push(x); v }) }
pub fn pi_for(v: Vec<&str>) -> Vec<Item> { let mut r = Vec::new(); for x in Card::parse_to_iter(v) { r.push(x); } r }
pub fn pi_count(v: Vec<&str>) -> usize { Card::parse_to_iter(v).count() }
pub fn pi_for_each(v: Vec<&str>) -> Vec<Item> { let mut r = Vec::new(); Card::parse_to_iter(v).for_each(|x| r.push(x)); r }
pub fn pi_extend(v: Vec<&str>) -> Vec<Item> { let mut r = Vec::new(); r.extend(Card::parse_to_iter(v)); r }
pub fn pi_last(v: Vec<&str>) -> Option<Item> { Card::parse_to_iter(v).last() }
pub fn pi_nth(v: Vec<&str>) -> (Option<Item>, Vec<Item>) {
    let mut i = Card::parse_to_iter(v);
    let a = i.nth(1);
    (a, i.collect())
}
pub fn pi_try(v: Vec<&str>) -> Result<Vec<Card>, ParseCardError> { Card::parse_to_iter(v).try_collect() }
pub fn pi_try_box(v: Vec<&str>) -> Result<Box<[Card]>, ParseCardError> { Card::parse_to_iter(v).try_collect() }
pub fn pi_try_strings(v: Vec<String>) -> Result<Vec<Card>, ParseCardError> { Card::parse_to_iter(v).try_collect() }
/// The adaptor over an arbitrary iterator of the analyser's choosing.
pub type Adapted = ParseToIter<std::vec::IntoIter<Result<u8, u8>>>;
pub fn adaptor_next(i: &mut Adapted) -> Option<Result<u8, u8>> { i.next() }
pub fn adaptor_next_back(i: &mut Adapted) -> Option<Result<u8, u8>> { i.next_back() }
pub fn adaptor_size_hint(i: &Adapted) -> (usize, Option<usize>) { i.size_hint() }
pub fn adaptor_len(i: &Adapted) -> usize { i.len() }
pub fn adaptor_fold(i: Adapted) -> Vec<Result<u8, u8>> {
    i.fold(Vec::new(), |mut v, x| { v.push(x); v })
}
pub fn adaptor_rev(i: Adapted) -> Vec<Result<u8, u8>> { i.rev().collect() }
pub fn adaptor_for_each(i: Adapted) -> Vec<Result<u8, u8>> { let mut v = Vec::new(); i.for_each(|x| v.push(x)); v }
pub fn adaptor_rev_next(mut i: Adapted) -> Vec<Result<u8, u8>> { let mut v = Vec::new(); while let Some(x) = i.next_back() { v.push(x); } v }
pub fn adaptor_ends(mut i: Adapted) -> Vec<Result<u8, u8>> {
    let mut v = Vec::new();
    while let Some(x) = i.next() {
        v.push(x);
        if let Some(y) = i.next_back() { v.push(y); }
    }
    v
}
pub fn adaptor_try_collect(i: Adapted) -> Result<Vec<u8>, u8> { i.try_collect() }

/// The adaptor over an iterator that cannot tell how many items it has.
pub type Vague = ParseToIter<std::iter::Filter<std::vec::IntoIter<Result<u8, u8>>, fn(&Result<u8, u8>) -> bool>>;
pub type Either = Result<u8, u8>;
pub fn vague_hint(i: &Vague) -> (usize, Option<usize>) { i.size_hint() }
pub fn vague_next(mut i: Vague) -> (Option<Either>, (usize, Option<usize>), Vec<Either>) { let a = i.next(); let h = i.size_hint(); (a, h, i.collect()) }
pub fn vague_back(mut i: Vague) -> (Option<Either>, (usize, Option<usize>), Vec<Either>) { let a = i.next_back(); let h = i.size_hint(); (a, h, i.collect()) }
pub fn vague_count(i: Vague) -> usize { i.count() }
pub fn vague_last(i: Vague) -> Option<Either> { i.last() }
pub fn vague_nth(mut i: Vague, n: usize) -> (Option<Either>, Vec<Either>) { let a = i.nth(n); (a, i.collect()) }
pub fn vague_nth_back(mut i: Vague, n: usize) -> (Option<Either>, Vec<Either>) { let a = i.nth_back(n); (a, i.collect()) }
pub fn vague_collect(i: Vague) -> Vec<Either> { i.collect() }
pub fn vague_for(i: Vague) -> Vec<Either> { let mut r = Vec::new(); for x in i { r.push(x); } r }
pub fn vague_for_each(i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.for_each(|x| r.push(x)); r }
pub fn vague_extend(i: Vague) -> Vec<Either> { let mut r = Vec::new(); r.extend(i); r }
pub fn vague_fold(i: Vague) -> Vec<Either> { i.fold(Vec::new(), |mut v, x| { v.push(x); v }) }
pub fn vague_all(mut i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.all(|x| { r.push(x); true }); r }
pub fn vague_any(mut i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.any(|x| { r.push(x); false }); r }
pub fn vague_find(mut i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.find(|x| { r.push(*x); false }); r }
pub fn vague_find_map(mut i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.find_map(|x| { r.push(x); None::<u8> }); r }
pub fn vague_position(mut i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.position(|x| { r.push(x); false }); r }
pub fn vague_try_each(i: Vague) -> Vec<Either> { let mut r = Vec::new(); let mut i = i; let _ = i.try_for_each(|x| { r.push(x); Some(()) }); r }
pub fn vague_reduced(i: Vague) -> Vec<Either> { let mut r = Vec::new(); if let Some(l) = i.reduce(|a, b| { r.push(a); b }) { r.push(l); } r }
pub fn vague_max(i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.max_by_key(|x| { r.push(*x); 0u8 }); r }
pub fn vague_cmp(i: Vague) -> Vec<Either> { let mut r = Vec::new(); i.min_by_key(|x| { r.push(*x); 0u8 }); r }
pub fn vague_split(i: Vague) -> Vec<Either> { let p: (Vec<Either>, Vec<Either>) = i.partition(|_| false); p.1 }
pub fn vague_ref(mut i: Vague) -> Vec<Either> { let mut r = Vec::new(); r.extend(i.by_ref()); r.extend(i); r }
pub fn vague_reduce(i: Vague) -> Option<Either> { i.reduce(|a, _| a) }
pub fn vague_rev(i: Vague) -> Vec<Either> { i.rev().collect() }
pub fn vague_rfold(i: Vague) -> Vec<Either> { i.rfold(Vec::new(), |mut v, x| { v.push(x); v }) }
pub fn vague_skip(i: Vague) -> Vec<Either> { i.skip(1).collect() }
pub fn vague_take(i: Vague) -> Vec<Either> { i.take(2).collect() }
pub fn vague_try(i: Vague) -> Result<Vec<u8>, u8> { i.try_collect() }
pub fn vague_result(i: Vague) -> Result<Vec<u8>, u8> { i.collect() }
pub fn adaptor_nth_back(mut i: Adapted, n: usize) -> (Option<Either>, usize, Vec<Either>) { let a = i.nth_back(n); (a, i.len(), i.collect()) }
pub fn adaptor_nth(mut i: Adapted, n: usize) -> (Option<Either>, usize, Vec<Either>) { let a = i.nth(n); (a, i.len(), i.collect()) }

pub type Some_<'a> = std::iter::Filter<std::vec::IntoIter<&'a str>, fn(&&'a str) -> bool>;
pub fn pi_vague(i: Some_) -> Vec<Item> { Card::parse_to_iter(i).collect() }
pub fn pi_vague_for(i: Some_) -> Vec<Item> { let mut r = Vec::new(); for x in Card::parse_to_iter(i) { r.push(x); } r }

// ---- macros
pub fn mac_card_two() -> Card { card!(Queen, Hearts) }
pub fn mac_card_of() -> Card { card!(Queen of Hearts) }
pub fn mac_card_expr(s: &str) -> Result<Card, ParseCardError> { card!(s) }
pub fn mac_cards_semi() -> [Card; 3] { cards!(Two, Clubs; Ace, Spades; Ten, Diamonds) }
pub fn mac_cards_semi_trailing() -> [Card; 3] { cards!(Two, Clubs; Ace, Spades; Ten, Diamonds;) }
pub fn mac_cards_of() -> [Card; 3] { cards!(Two of Clubs, Ace of Spades, Ten of Diamonds) }
pub fn mac_cards_of_trailing() -> [Card; 3] { cards!(Two of Clubs, Ace of Spades, Ten of Diamonds,) }
pub fn mac_cards_exprs(a: &str, b: &str, c: &str) -> Vec<Result<Card, ParseCardError>> { cards!(a, b, c).collect() }
pub fn mac_cards_exprs_trailing(a: &str, b: &str, c: &str) -> Vec<Result<Card, ParseCardError>> { cards!(a, b, c,).collect() }
pub fn mac_cards_str(s: &str) -> Vec<Result<Card, ParseCardError>> { cards!(s).collect() }
pub fn mac_box(a: &[Card], b: &[Card], c: &[Card]) -> Box<[Card]> { box_cards!(a, b, c) }
pub fn mac_box_trailing(a: &[Card], b: &[Card]) -> Box<[Card]> { box_cards!(a, b,) }
macro_rules! all_cards {
    ($($f:ident $r:ident $s:ident),* $(,)?) => { $( pub fn $f() -> [Card; 2] { [card!($r, $s), card!($r of $s)] } )* }
}
all_cards!(mc_2c Two Clubs, mc_3c Three Clubs, mc_4d Four Diamonds, mc_5d Five Diamonds, mc_6h Six Hearts,
    mc_7h Seven Hearts, mc_8s Eight Spades, mc_9s Nine Spades, mc_tc Ten Clubs, mc_jd Jack Diamonds,
    mc_qh Queen Hearts, mc_ks King Spades, mc_ac Ace Clubs);

/// The macros where nothing else of the crate is named, and with many cards.
pub mod bare {
    use poker::{box_cards, card, cards};
    pub fn mb_semi_1() -> [poker::Card; 1] { cards!(Four, Spades) }
    pub fn mb_semi_tr_1() -> [poker::Card; 1] { cards!(Four, Spades;) }
    pub fn mb_of_1() -> [poker::Card; 1] { cards!(Four of Spades) }
    pub fn mb_of_tr_1() -> [poker::Card; 1] { cards!(Four of Spades,) }
    pub fn mb_semi_2() -> [poker::Card; 2] { cards!(Four, Spades; Six, Hearts) }
    pub fn mb_semi_tr_2() -> [poker::Card; 2] { cards!(Four, Spades; Six, Hearts;) }
    pub fn mb_of_2() -> [poker::Card; 2] { cards!(Four of Spades, Six of Hearts) }
    pub fn mb_of_tr_2() -> [poker::Card; 2] { cards!(Four of Spades, Six of Hearts,) }
    pub fn mb_semi_5() -> [poker::Card; 5] { cards!(Four, Spades; Six, Hearts; Four, Diamonds; Jack, Hearts; Queen, Spades) }
    pub fn mb_semi_tr_5() -> [poker::Card; 5] { cards!(Four, Spades; Six, Hearts; Four, Diamonds; Jack, Hearts; Queen, Spades;) }
    pub fn mb_of_5() -> [poker::Card; 5] { cards!(Four of Spades, Six of Hearts, Four of Diamonds, Jack of Hearts, Queen of Spades) }
    pub fn mb_of_tr_5() -> [poker::Card; 5] { cards!(Four of Spades, Six of Hearts, Four of Diamonds, Jack of Hearts, Queen of Spades,) }
    pub fn mb_semi_13() -> [poker::Card; 13] { cards!(Four, Spades; Six, Hearts; Four, Diamonds; Jack, Hearts; Queen, Spades; Eight, Spades; Ace, Diamonds; Jack, Clubs; Ace, Hearts; Ace, Spades; Ace, Clubs; Eight, Diamonds; Queen, Clubs) }
    pub fn mb_semi_tr_13() -> [poker::Card; 13] { cards!(Four, Spades; Six, Hearts; Four, Diamonds; Jack, Hearts; Queen, Spades; Eight, Spades; Ace, Diamonds; Jack, Clubs; Ace, Hearts; Ace, Spades; Ace, Clubs; Eight, Diamonds; Queen, Clubs;) }
    pub fn mb_of_13() -> [poker::Card; 13] { cards!(Four of Spades, Six of Hearts, Four of Diamonds, Jack of Hearts, Queen of Spades, Eight of Spades, Ace of Diamonds, Jack of Clubs, Ace of Hearts, Ace of Spades, Ace of Clubs, Eight of Diamonds, Queen of Clubs) }
    pub fn mb_of_tr_13() -> [poker::Card; 13] { cards!(Four of Spades, Six of Hearts, Four of Diamonds, Jack of Hearts, Queen of Spades, Eight of Spades, Ace of Diamonds, Jack of Clubs, Ace of Hearts, Ace of Spades, Ace of Clubs, Eight of Diamonds, Queen of Clubs,) }
    pub fn mb_semi_52() -> [poker::Card; 52] { cards!(Four, Spades; Six, Hearts; Four, Diamonds; Jack, Hearts; Queen, Spades; Eight, Spades; Ace, Diamonds; Jack, Clubs; Ace, Hearts; Ace, Spades; Ace, Clubs; Eight, Diamonds; Queen, Clubs; Ten, Clubs; Nine, Clubs; Nine, Spades; Six, Diamonds; Seven, Diamonds; Five, Hearts; Seven, Clubs; Six, Spades; Three, Clubs; Two, Hearts; Eight, Hearts; Five, Clubs; Ten, Hearts; Three, Diamonds; Four, Clubs; Five, Diamonds; King, Diamonds; Jack, Diamonds; Two, Clubs; Ten, Spades; Three, Hearts; Eight, Clubs; Queen, Hearts; Nine, Hearts; Seven, Spades; Three, Spades; Four, Hearts; Two, Spades; King, Hearts; Five, Spades; Nine, Diamonds; Two, Diamonds; Ten, Diamonds; Queen, Diamonds; King, Clubs; Seven, Hearts; King, Spades; Six, Clubs; Jack, Spades) }
    pub fn mb_semi_tr_52() -> [poker::Card; 52] { cards!(Four, Spades; Six, Hearts; Four, Diamonds; Jack, Hearts; Queen, Spades; Eight, Spades; Ace, Diamonds; Jack, Clubs; Ace, Hearts; Ace, Spades; Ace, Clubs; Eight, Diamonds; Queen, Clubs; Ten, Clubs; Nine, Clubs; Nine, Spades; Six, Diamonds; Seven, Diamonds; Five, Hearts; Seven, Clubs; Six, Spades; Three, Clubs; Two, Hearts; Eight, Hearts; Five, Clubs; Ten, Hearts; Three, Diamonds; Four, Clubs; Five, Diamonds; King, Diamonds; Jack, Diamonds; Two, Clubs; Ten, Spades; Three, Hearts; Eight, Clubs; Queen, Hearts; Nine, Hearts; Seven, Spades; Three, Spades; Four, Hearts; Two, Spades; King, Hearts; Five, Spades; Nine, Diamonds; Two, Diamonds; Ten, Diamonds; Queen, Diamonds; King, Clubs; Seven, Hearts; King, Spades; Six, Clubs; Jack, Spades;) }
    pub fn mb_of_52() -> [poker::Card; 52] { cards!(Four of Spades, Six of Hearts, Four of Diamonds, Jack of Hearts, Queen of Spades, Eight of Spades, Ace of Diamonds, Jack of Clubs, Ace of Hearts, Ace of Spades, Ace of Clubs, Eight of Diamonds, Queen of Clubs, Ten of Clubs, Nine of Clubs, Nine of Spades, Six of Diamonds, Seven of Diamonds, Five of Hearts, Seven of Clubs, Six of Spades, Three of Clubs, Two of Hearts, Eight of Hearts, Five of Clubs, Ten of Hearts, Three of Diamonds, Four of Clubs, Five of Diamonds, King of Diamonds, Jack of Diamonds, Two of Clubs, Ten of Spades, Three of Hearts, Eight of Clubs, Queen of Hearts, Nine of Hearts, Seven of Spades, Three of Spades, Four of Hearts, Two of Spades, King of Hearts, Five of Spades, Nine of Diamonds, Two of Diamonds, Ten of Diamonds, Queen of Diamonds, King of Clubs, Seven of Hearts, King of Spades, Six of Clubs, Jack of Spades) }
    pub fn mb_of_tr_52() -> [poker::Card; 52] { cards!(Four of Spades, Six of Hearts, Four of Diamonds, Jack of Hearts, Queen of Spades, Eight of Spades, Ace of Diamonds, Jack of Clubs, Ace of Hearts, Ace of Spades, Ace of Clubs, Eight of Diamonds, Queen of Clubs, Ten of Clubs, Nine of Clubs, Nine of Spades, Six of Diamonds, Seven of Diamonds, Five of Hearts, Seven of Clubs, Six of Spades, Three of Clubs, Two of Hearts, Eight of Hearts, Five of Clubs, Ten of Hearts, Three of Diamonds, Four of Clubs, Five of Diamonds, King of Diamonds, Jack of Diamonds, Two of Clubs, Ten of Spades, Three of Hearts, Eight of Clubs, Queen of Hearts, Nine of Hearts, Seven of Spades, Three of Spades, Four of Hearts, Two of Spades, King of Hearts, Five of Spades, Nine of Diamonds, Two of Diamonds, Ten of Diamonds, Queen of Diamonds, King of Clubs, Seven of Hearts, King of Spades, Six of Clubs, Jack of Spades,) }
    pub fn mb_const() -> [poker::Card; 3] { const MB_CONST: [poker::Card; 3] = cards!(Four of Spades, Six of Hearts, Four of Diamonds); MB_CONST }
    pub fn mb_card() -> [poker::Card; 2] { [card!(Nine, Diamonds), card!(Nine of Diamonds)] }
    type Item = Result<poker::Card, poker::ParseCardError>;
    pub fn mb_exprs_2(t0: &str, t1: &str) -> Vec<Item> { cards!(t0, { t1 }).collect() }
    pub fn mb_exprs_9(t0: &str, t1: &str, t2: &str, t3: &str, t4: &str, t5: &str, t6: &str, t7: &str, t8: &str) -> Vec<Item> { cards!(t0, t1, t2, t3, t4, t5, t6, t7, t8).collect() }
    pub fn mb_exprs_string(a: String, b: String) -> Vec<Item> { cards!(a, { b }).collect() }
    pub fn mb_string(a: String) -> Vec<Item> { cards!(a).collect() }
    pub fn mb_card_string(a: String) -> Item { card!(a) }
    pub fn mb_box_2(a: &[poker::Card], b: &[poker::Card]) -> Box<[poker::Card]> { box_cards!(a, b) }
    pub fn mb_box_7(a: &[poker::Card], b: &[poker::Card], c: &[poker::Card], d: &[poker::Card], e: &[poker::Card], f: &[poker::Card], g: &[poker::Card]) -> Box<[poker::Card]> { box_cards!(a, b, c, d, e, f, g) }
    pub fn mb_box_mixed(a: Vec<poker::Card>, b: [poker::Card; 2], c: Box<[poker::Card]>) -> Box<[poker::Card]> { box_cards!(a, b, c) }
}

// ---- decks
pub fn deck_vec() -> Vec<Card> { deck::generate().collect() }
pub fn deck_count() -> usize { deck::generate().count() }
pub fn pull_nth(n: usize) -> Option<Card> { deck::generate().nth(n) }
pub fn pull_last() -> Option<Card> { deck::generate().last() }
pub fn pull_each() -> Vec<Card> { let mut v = Vec::new(); for c in deck::generate() { v.push(c) } v }
pub fn pull_fold() -> Vec<Card> { let mut v = Vec::new(); deck::generate().for_each(|c| v.push(c)); v }
pub fn pull_skip(n: usize) -> Vec<Card> { let mut v = Vec::new(); for c in deck::generate().skip(n) { v.push(c) } v }
pub fn pull_parts(n: usize) -> (Vec<Card>, Vec<Card>) { let mut d = deck::generate(); let a = d.by_ref().take(n).collect(); let b = d.collect(); (a, b) }
pub fn pull_after(n: usize) -> (Option<Card>, Option<Card>, Vec<Card>) { let mut d = deck::generate(); let a = d.nth(n); let b = d.next(); let c = d.collect(); (a, b, c) }
pub fn pull_hint() -> (usize, Option<usize>) { deck::generate().size_hint() }
pub fn pull_hint_after(n: usize) -> (usize, Option<usize>) { let mut d = deck::generate(); for _ in 0..n { d.next(); } d.size_hint() }
pub fn deck_shuffled() -> Vec<Card> { deck::shuffled() }
pub struct AnyRng;
pub fn rng_word() -> u64 { 4 }
impl rand::RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 { rng_word() as u32 }
    fn next_u64(&mut self) -> u64 { rng_word() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = rng_word() as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
pub fn deck_shuffled_with(r: &mut AnyRng) -> Vec<Card> { deck::shuffled_with(r) }

// ---- evaluation
pub fn ev_new() -> Evaluator { Evaluator::new() }
pub fn ev_default() -> Evaluator { Evaluator::default() }
pub fn ev_clone(e: &Evaluator) -> Evaluator { e.clone() }
pub fn ev_clone_from(d: Evaluator, e: &Evaluator) -> Evaluator { let mut d = d; d.clone_from(e); d }
pub fn ev_eq(a: &Evaluator, b: &Evaluator) -> bool { a == b }
pub fn ev_slice(e: &Evaluator, c: &[Card]) -> Result<Eval, EvalError> { e.evaluate(c) }
pub fn ev_vec(e: &Evaluator, c: Vec<Card>) -> Result<Eval, EvalError> { e.evaluate(c) }
pub fn ev_arr5(e: &Evaluator, c: [Card; 5]) -> Result<Eval, EvalError> { e.evaluate(c) }
pub fn ev_box(e: &Evaluator, c: Box<[Card]>) -> Result<Eval, EvalError> { e.evaluate(c) }

// ---- evaluations
pub fn eval_best() -> Eval { Eval::BEST }
pub fn eval_worst() -> Eval { Eval::WORST }
pub fn eval_clone(a: &Eval) -> Eval { a.clone() }
pub fn eval_class(e: Eval) -> EvalClass { e.class() }
pub fn eval_better(a: Eval, b: Eval) -> bool { a.is_better_than(b) }
pub fn eval_worse(a: Eval, b: Eval) -> bool { a.is_worse_than(b) }
pub fn eval_equal(a: Eval, b: Eval) -> bool { a.is_equal_to(b) }
pub fn eval_eq(a: &Eval, b: &Eval) -> bool { a == b }
pub fn eval_ne(a: &Eval, b: &Eval) -> bool { a != b }
pub fn eval_lt(a: &Eval, b: &Eval) -> bool { a < b }
pub fn eval_le(a: &Eval, b: &Eval) -> bool { a <= b }
pub fn eval_gt(a: &Eval, b: &Eval) -> bool { a > b }
pub fn eval_ge(a: &Eval, b: &Eval) -> bool { a >= b }
pub fn eval_cmp(a: &Eval, b: &Eval) -> Ordering { a.cmp(b) }
pub fn eval_partial_cmp(a: &Eval, b: &Eval) -> Option<Ordering> { a.partial_cmp(b) }
pub fn eval_max(a: Eval, b: Eval) -> Eval { a.max(b) }
pub fn eval_min(a: Eval, b: Eval) -> Eval { a.min(b) }
pub fn eval_hash(a: &Eval, h: &mut Probe) { a.hash(h) }
pub fn eval_display(a: &Eval) -> String { a.to_string() }
pub fn eval_debug(a: &Eval) -> String { format!("{:?}", a) }
pub fn eval_is_high_card(e: Eval) -> bool { e.is_high_card() }
pub fn eval_is_pair(e: Eval) -> bool { e.is_pair() }
pub fn eval_is_two_pair(e: Eval) -> bool { e.is_two_pair() }
pub fn eval_is_three_of_a_kind(e: Eval) -> bool { e.is_three_of_a_kind() }
pub fn eval_is_straight(e: Eval) -> bool { e.is_straight() }
pub fn eval_is_flush(e: Eval) -> bool { e.is_flush() }
pub fn eval_is_full_house(e: Eval) -> bool { e.is_full_house() }
pub fn eval_is_four_of_a_kind(e: Eval) -> bool { e.is_four_of_a_kind() }
pub fn eval_is_straight_flush(e: Eval) -> bool { e.is_straight_flush() }
pub fn eval_is_royal_flush(e: Eval) -> bool { e.is_royal_flush() }

// ---- hand classes
pub fn class_cmp(a: &EvalClass, b: &EvalClass) -> Ordering { a.cmp(b) }
pub fn class_partial_cmp(a: &EvalClass, b: &EvalClass) -> Option<Ordering> { a.partial_cmp(b) }
pub fn class_lt(a: &EvalClass, b: &EvalClass) -> bool { a < b }
pub fn class_le(a: &EvalClass, b: &EvalClass) -> bool { a <= b }
pub fn class_gt(a: &EvalClass, b: &EvalClass) -> bool { a > b }
pub fn class_ge(a: &EvalClass, b: &EvalClass) -> bool { a >= b }
pub fn class_max(a: EvalClass, b: EvalClass) -> EvalClass { a.max(b) }
pub fn class_min(a: EvalClass, b: EvalClass) -> EvalClass { a.min(b) }
pub fn class_eq(a: &EvalClass, b: &EvalClass) -> bool { a == b }
pub fn class_ne(a: &EvalClass, b: &EvalClass) -> bool { a != b }
pub fn class_clone(a: &EvalClass) -> EvalClass { a.clone() }
pub fn class_display(a: &EvalClass) -> String { a.to_string() }
pub fn class_debug(a: &EvalClass) -> String { format!("{:?}", a) }

// ---- errors
pub fn perr_display(e: &ParseCardError) -> String { e.to_string() }
pub fn eerr_display(e: &EvalError) -> String { e.to_string() }
pub fn perr_debug(e: &ParseCardError) -> String { format!("{:?}", e) }
pub fn eerr_debug(e: &EvalError) -> String { format!("{:?}", e) }
pub fn perr_eq(a: &ParseCardError, b: &ParseCardError) -> bool { a == b }
pub fn eerr_eq(a: &EvalError, b: &EvalError) -> bool { a == b }
pub fn perr_ne(a: &ParseCardError, b: &ParseCardError) -> bool { a != b }
pub fn eerr_ne(a: &EvalError, b: &EvalError) -> bool { a != b }
pub fn perr_clone(a: &ParseCardError) -> ParseCardError { a.clone() }
pub fn eerr_clone(a: &EvalError) -> EvalError { a.clone() }
pub fn perr_clone_from(d: ParseCardError, a: &ParseCardError) -> ParseCardError { let mut d = d; d.clone_from(a); d }
pub fn eerr_clone_from(d: EvalError, a: &EvalError) -> EvalError { let mut d = d; d.clone_from(a); d }
pub fn perr_source(e: &ParseCardError) -> bool { std::error::Error::source(e).is_none() }
pub fn eerr_source(e: &EvalError) -> bool { std::error::Error::source(e).is_none() }
