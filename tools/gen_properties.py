#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "A card is exactly its rank and suit",
  "Building a card from any of the 13 ranks and 4 suits and reading its rank and suit back returns what was given. Two cards are equal (and hash alike) exactly when both rank and suit are the same, so there are exactly 52 distinct cards.",
  ["inputs"], "all 52 rank/suit pairs, and all pairs of cards",
  "The doc examples look at a handful of cards; the deck tests only count distinct integers and per-suit/per-rank totals, which a consistent permutation of ranks or suits passes.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs"],
  [("encoding constructor", "Card::new in src/card/mod.rs"), ("decoding accessors", "Card::rank / Card::suit in src/card/mod.rs"),
   ("integer codes of ranks and suits", "as_i32 / from_i32 in src/card/rank.rs and src/card/suit.rs"), ("derived equality and hash", "Card in src/card/mod.rs")],
  state=[("unique_integer", "the card's only field", "src/card/mod.rs")], observe=["Card::new", "Card::rank", "Card::suit", "==", "Hash"])

p("C02", "The public integer encoding of a card follows the documented layout",
  "For every card the public integer has, and has only: one bit among bits 16-28 at the position of the rank (deuce lowest, ace highest), one bit among bits 12-15 for the suit (spades lowest, then hearts, diamonds, clubs), the rank number 0-12 in bits 8-11, and in the low byte the prime number assigned to that rank (2 for a deuce up to 41 for an ace).",
  ["inputs"], "all 52 cards, every bit",
  "Documentation examples check the ace of spades only; the evaluator works with many wrong layouts that remain self-consistent.",
  ["src/card/mod.rs", "src/constants.rs", "src/card/rank.rs", "src/card/suit.rs"],
  [("bit composition", "Card::new in src/card/mod.rs"), ("table of primes", "PRIMES in src/constants.rs")], observe=["Card::unique_integer"])

p("C03", "Only valid cards and genuine evaluations can be constructed",
  "Code outside the crate cannot obtain a card other than the 52 real ones, nor a hand evaluation other than the results of evaluating a hand and the published best/worst constants. No public operation mutates a card, an evaluation or an evaluator in place.",
  ["programs"], "every downstream program, and every place in the crate that builds or writes these values",
  "A test can only exercise the programs it contains; this is a statement about programs that must not compile and about every construction site in the crate.",
  ["src/card/mod.rs", "src/evaluate/eval.rs", "src/evaluate/mod.rs", "src/evaluate/meta.rs"],
  [("private fields", "Card, Eval, Evaluator"), ("single constructing function for cards", "Card::new"), ("no public &mut self methods", "Card, Eval, Evaluator")],
  observe=["public API surface"])

p("C04", "String parsing accepts exactly the 52 two-character names",
  "Parsing a string as a card succeeds exactly when it has two characters, the first one of 23456789TJQKA and the second one of chsd (case-sensitive), and yields the card with that rank and suit. Otherwise the error says which rule failed first (length, then rank, then suit), and carries the complete original input and, for rank and suit errors, the offending character.",
  ["inputs"], "all strings of any length over all Unicode scalar values",
  "Tests parse the 52 good strings and three bad ones; the rejected set is infinite and includes multi-byte characters, other cases and other lengths.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs", "src/error.rs"],
  [("two-character destructuring", "FromStr for Card in src/card/mod.rs"), ("character tables", "TryFrom<char> for Rank / Suit"), ("error construction", "FromStr for Card")],
  observe=["str::parse::<Card>()"])

p("C05", "All parsing entry points agree and stay element-wise",
  "Building a card from two characters accepts the same characters, gives the same card and blames the same character as parsing a two-character string; its error quotes the offending character as the input. Parsing a sequence of strings yields one result per string, in order and without stopping at errors, however the sequence is consumed; collecting that sequence gives all the cards in order, or the first error.",
  ["inputs"], "all character pairs; all sequences of strings",
  "Tests only use all-valid sequences and a few character pairs.",
  ["src/card/mod.rs"],
  [("two-character constructor", "Card::try_from_chars"), ("lazy element-wise parser", "Card::parse_to_iter"), ("iterator delegation", "ParseToIter in src/card/mod.rs"), ("short-circuiting collection", "ParseToIter::try_collect")],
  observe=["Card::try_from_chars", "Card::parse_to_iter", "ParseToIter"])

p("C06", "Card text forms are correct and round-trip through the parser",
  "The two-character text of every card is its rank character followed by its suit character and parses back to the same card; rank and suit characters individually convert back to the same rank and suit. The displayed form of a card is \"[ RS ]\" with the rank character and the Unicode suit symbol (spade, heart, club, diamond) of that card's own suit.",
  ["inputs"], "all 52 cards, 13 ranks and 4 suits",
  "Tests cover parse of rank/suit characters but printing is checked only for a couple of cards.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs"],
  [("character tables", "Rank::as_char, Suit::as_char, Suit::as_pretty_char"), ("string building", "Card::rank_suit_string"), ("Display impls", "Card, Rank, Suit")],
  observe=["Card::rank_suit_string", "Display"])

p("C07", "Cards order by rank alone, deuce low to ace high",
  "Comparing two cards gives the order of their ranks (2 < 3 < ... < T < J < Q < K < A) and ignores suits, and every way of comparing (partial or total, on cards or on ranks) agrees.",
  ["inputs"], "all pairs of cards and of ranks",
  "No test compares cards; a derived or swapped comparison goes unnoticed.",
  ["src/card/mod.rs", "src/card/rank.rs"],
  [("Ord / PartialOrd for Card", "src/card/mod.rs"), ("derived order of Rank", "src/card/rank.rs")], observe=["Ord", "PartialOrd"])

p("C08", "A generated deck holds each of the 52 cards exactly once",
  "Generating a deck yields every one of the 52 cards exactly once, in the same fixed order every time, and then ends.",
  ["inputs"], "every position of the deck, every call",
  "Tests count 52 and check uniqueness and per-suit/rank totals on one run; they do not tie order or content across calls.",
  ["src/deck.rs", "src/card/rank.rs", "src/card/suit.rs"],
  [("cartesian product of the variant lists", "deck::generate"), ("variant lists", "Rank::ALL_VARIANTS, Suit::ALL_VARIANTS")], observe=["deck::generate"])

p("C09", "A shuffled deck is a permutation driven only by the given generator",
  "Whatever random generator is supplied and whatever values it returns, the shuffled deck contains each of the 52 cards exactly once. The caller-supplied generator is the only source of randomness, and the whole deck goes through the shuffle.",
  ["inputs", "histories"], "all generators and all sequences of values they return",
  "The test checks only the length of one shuffled deck.",
  ["src/deck.rs"],
  [("shuffle in place of a generated deck", "deck::shuffled_with"), ("thread-local generator wrapper", "deck::shuffled")], observe=["deck::shuffled_with", "deck::shuffled"])

p("C10", "Invalid hands are rejected, and exactly those",
  "Evaluating a slice that contains any card twice is refused with the not-unique error carrying all the given cards in their given order, whatever the number of cards. Otherwise fewer than five cards are refused with the hand-size error carrying the number given, and five or more distinct cards always evaluate successfully.",
  ["inputs"], "all card slices of every length, order and duplication pattern",
  "Tests sample one duplicate hand and two short hands; duplicates of particular suits, positions or hand sizes are not exercised.",
  ["src/evaluate/evaluation.rs", "src/evaluate/utils.rs", "src/evaluate/mod.rs"],
  [("uniqueness scan", "all_unique / card_to_index in src/evaluate/utils.rs"), ("size dispatch", "evaluate in src/evaluate/evaluation.rs")], observe=["Evaluator::evaluate"])

p("C11", "Every five-card hand gets the class and ranks poker gives it",
  "For each of the 2,598,960 five-card hands, the reported class (high card to straight flush, ace counting low only in a five-high straight) and the ranks inside it (high card, pair, higher and lower pair, trips, quads, full-house trips and pair) are those given by the rules of poker.",
  ["inputs"], "all five-card hands, in any order",
  "Tests check that 7462 distinct results exist and ten representative hands; ranks carried in a class and which hands map to which class are hardly checked.",
  ["src/evaluate/lookup_table.rs", "src/evaluate/evaluation.rs", "src/evaluate/utils.rs", "src/evaluate/meta.rs"],
  [("table construction", "LookupTable::new and helpers"), ("table lookup by prime product", "five in src/evaluate/evaluation.rs"), ("class projection", "Meta::class")],
  observe=["Evaluator::evaluate", "Eval::class"])

p("C12", "Five-card evaluations order exactly as poker ranks the hands",
  "For any two five-card hands, one evaluates better than, equal to or worse than the other exactly as the rules of poker rank them, taking every kicker into account, with ties only where poker ties.",
  ["inputs"], "all pairs of five-card hands",
  "Tests check that the set of strengths is 1..7462 and three comparisons; any permutation of strengths between hands passes.",
  ["src/evaluate/lookup_table.rs", "src/evaluate/evaluation.rs", "src/evaluate/meta.rs", "src/evaluate/hand_rank.rs", "src/evaluate/utils.rs"],
  [("rank counters and iteration order of table construction", "LookupTable::flushes_straights_high_cards, LookupTable::multiples"), ("block boundaries", "lookup_table::constants"), ("combination and bit-sequence generators", "src/evaluate/utils.rs")],
  observe=["Eval comparison"])

p("C13", "Six or more cards evaluate to their best five-card hand",
  "Evaluating six or more distinct cards gives the evaluation of the best five-card hand that can be chosen from them: no five-card subset is overlooked and nothing else contributes.",
  ["inputs"], "all hands of six or more distinct cards",
  "Tests use ten 6-card and ten 7-card hands, always with the best cards in the same positions, and none with eight or more.",
  ["src/evaluate/evaluation.rs", "src/evaluate/utils.rs"],
  [("maximum over combinations", "six_plus in src/evaluate/evaluation.rs"), ("combination generator", "Combinations in src/evaluate/utils.rs")], observe=["Evaluator::evaluate"])

p("C14", "Evaluation ignores card order and which suit is which",
  "The result of evaluating a valid hand depends only on the set of cards: reordering the cards, or renaming the four suits consistently, never changes the evaluation.",
  ["inputs"], "all hands, all permutations of the cards, all permutations of the suits",
  "Tests evaluate each hand in one order only.",
  ["src/evaluate/evaluation.rs", "src/evaluate/utils.rs"],
  [("commutative key", "five, prime_product_from_hand, prime_product_from_rank_bits"), ("flush detection", "five")], observe=["Evaluator::evaluate"])

p("C15", "Evaluation comparisons are one coherent total order",
  "For any two evaluations, the better-than, worse-than and equal-to methods, the comparison operators, total and partial comparison, equality and hashing all agree with a single total order in which exactly one of better, equal, worse holds.",
  ["inputs"], "all pairs of evaluations the crate can produce",
  "One test compares three hands with the named methods; operators, ties with other classes, hashing and partial comparison are not compared with each other.",
  ["src/evaluate/eval.rs", "src/evaluate/meta.rs", "src/evaluate/hand_rank.rs"],
  [("manual comparison impls", "PartialEq/PartialOrd/Ord/Hash for Meta"), ("const comparison methods", "Eval::is_better_than, is_worse_than, is_equal_to; PokerHandRank")], observe=["Eval"])

p("C16", "Class predicates, class value and royal flush agree",
  "For every evaluation exactly one of the nine class predicates is true, and it is the one named by the reported class. The royal-flush predicate is true exactly for ace-high straight flushes.",
  ["inputs"], "all evaluations the crate can produce",
  "The representative tests assert the true predicate only and never that the others are false.",
  ["src/evaluate/eval.rs", "src/evaluate/meta.rs"],
  [("predicates", "Eval::is_*, Meta::is_*"), ("class projection", "Meta::class")], observe=["Eval"])

p("C17", "The published best and worst evaluations bound every evaluation",
  "The best constant equals the evaluation of a royal flush and the worst constant equals that of 7-5-4-3-2 unsuited, in strength, class and ranks; no hand evaluates better than the one or worse than the other.",
  ["inputs"], "all hands",
  "Tests check the constants' text and predicates, not that they equal or bound evaluations.",
  ["src/evaluate/eval.rs", "src/evaluate/meta.rs", "src/evaluate/hand_rank.rs", "src/evaluate/lookup_table.rs"],
  [("constants", "Eval::BEST, Eval::WORST, Meta::BEST, Meta::WORST, PokerHandRank::BEST/WORST")], observe=["Eval::BEST", "Eval::WORST"])

p("C18", "Displayed hand names describe the class and its ranks",
  "The text shown for every evaluation and class is the documented English name with the right ranks in the right places and grammatical number (for example \"Pair, sixes\", \"Two pair, aces and kings\" with the first pair first, \"Full house, jacks over fours\" with trips first, \"Straight, five-high\"), an ace-high straight flush showing as \"Royal flush\". An evaluation and its class show the same text.",
  ["inputs"], "all class values with all rank combinations, all evaluations",
  "Tests check a handful of strings.",
  ["src/evaluate/class.rs", "src/card/rank.rs", "src/evaluate/meta.rs", "src/evaluate/eval.rs"],
  [("Display impls", "EvalClass, Meta, Eval"), ("rank names", "Rank::as_str_name, Rank::as_str_name_plural")], observe=["Display"])

p("C19", "Error messages report the facts of the rejected input",
  "Each parse error message quotes the whole input and states the number of characters found (length error) or the offending character and the accepted set (rank and suit errors). The duplicate-cards message lists each card that occurs more than once exactly once, and the hand-size message gives the number of cards; the same error value always produces the same message.",
  ["inputs"], "all error values, including non-ASCII inputs and several duplicated cards",
  "Tests format one ASCII input per variant and a single duplicated card, where byte length equals character count and order cannot vary.",
  ["src/error.rs"],
  [("Display impls", "ParseCardError, EvalError")], observe=["Display of ParseCardError and EvalError"])

p("C20", "No public operation panics",
  "No call of the card, deck, evaluation, comparison, formatting or parsing operations panics (by failed lookup, indexing, arithmetic overflow, unwrap or unreachable code), whatever the arguments and however the evaluator was obtained, in debug or release builds.",
  ["inputs", "histories"], "all arguments of all public functions, all evaluators obtainable through the public API",
  "Tests cover the paths they take; an evaluator obtained by default construction, long hands or unusual strings are not tried.",
  ["src/card/mod.rs", "src/evaluate/mod.rs", "src/evaluate/evaluation.rs", "src/evaluate/lookup_table.rs", "src/evaluate/utils.rs", "src/error.rs", "src/deck.rs"],
  [("total lookup tables", "LookupTable::new"), ("guards before indexing", "evaluate, Combinations"), ("total matches", "Rank/Suit conversions")], observe=["every public function"])

p("C21", "Evaluation is pure, read-only and thread-shareable",
  "Parsing, formatting, comparing and evaluating read nothing but their arguments: no global or thread-local state, clock, environment, randomness or input/output. An evaluator has no interior mutability, and evaluators, evaluations, cards and errors can be shared and sent between threads.",
  ["schedules", "histories"], "all call sequences and interleavings",
  "A test observes a few sequential calls; hidden state only shows for particular histories or schedules.",
  ["src/lib.rs", "src/evaluate/mod.rs", "src/evaluate/evaluation.rs", "src/evaluate/lookup_table.rs"],
  [("unsafe code forbidden", "src/lib.rs"), ("shared-reference methods only", "Evaluator::evaluate"), ("plain data fields", "LookupTable")], observe=["Send/Sync", "call graph of the public API"])

p("C22", "All evaluators are interchangeable",
  "However an evaluator is obtained (constructed, default-constructed, cloned or overwritten by cloning), it is equal to and evaluates every hand identically to a newly constructed one.",
  ["histories", "inputs"], "all ways of obtaining an evaluator, all hands",
  "All tests share one evaluator made by the constructor.",
  ["src/evaluate/mod.rs", "src/evaluate/lookup_table.rs"],
  [("constructor", "Evaluator::new"), ("Default and Clone impls", "Evaluator, LookupTable")], observe=["Evaluator::new", "Evaluator::default", "Evaluator::clone"])

p("C23", "Every macro form denotes the cards written, in the order written",
  "All forms of the card and cards macros (comma pairs, \"of\" pairs, string lists, one whitespace-separated string) denote exactly the cards written, in order, the identifier forms being usable in constants; none needs anything else imported. Boxing several card slices yields their concatenation in argument order.",
  ["programs", "inputs"], "all macro invocations of every documented form; all slices",
  "Doc examples instantiate each form once or twice with one or two cards.",
  ["src/card/macros.rs"],
  [("macro arms", "card!, cards!, box_cards!")], observe=["card!", "cards!", "box_cards!"])

p("C24", "The static-table evaluator runs the same algorithm as the dynamic one",
  "With the static table feature enabled, the free evaluation function validates, looks up and maximises exactly as the evaluator object does, consulting the suited table for flushes and the unsuited table otherwise.",
  ["configurations", "inputs"], "the feature-enabled configuration, all hands",
  "The feature needs a download at build time, so neither the module nor its tests are ever compiled here.",
  ["src/evaluate/static_lookup.rs", "src/evaluate/evaluation.rs"],
  [("shared generic evaluation", "evaluation::evaluate"), ("table accessors", "Evaluation impls for Evaluator and the static evaluator")], observe=["evaluate::static_lookup::evaluate"])

p("C25", "Hand classes order by poker strength",
  "Class values compare first by poker category (high card lowest, straight flush highest) and within a category by their ranks, most significant rank first (the higher pair before the lower, trips before pair), so a better evaluation never has a lesser class than a worse one.",
  ["inputs"], "all pairs of class values the crate can produce",
  "One test makes two comparisons.",
  ["src/evaluate/class.rs", "src/card/rank.rs"],
  [("derived order over variant and field declaration order", "EvalClass")], observe=["EvalClass Ord/PartialOrd/Eq"])

p("C26", "The documented interface is available in every feature configuration",
  "Card construction and accessors, rank and suit characters, and the class, comparison and predicate methods of evaluations can be used in constant expressions, and the published constants are themselves constants. With or without default features the crate builds and everything except shuffling is available.",
  ["programs", "configurations"], "all downstream programs that use the documented API, under default features and none",
  "Only two doc examples use a const item, the remaining const functions are only called at run time, and the tests run under default features only.",
  ["src/card/mod.rs", "src/card/rank.rs", "src/card/suit.rs", "src/evaluate/eval.rs", "src/evaluate/meta.rs"],
  [("const fn signatures", "Card, Rank, Suit, Eval")], observe=["const contexts"])

p("C27", "The example game pays by its table and never corrupts its state",
  "In the bundled video-poker example, the payout for every class and legal wager follows the game's table, an accepted wager is between 1 and the smaller of 5 and the remaining credits, accepted swaps are distinct positions of the hand, and dealing and swapping never lose or duplicate cards.",
  ["inputs", "histories"], "all user inputs and all rounds",
  "The example has no tests at all.",
  ["examples/jacks-or-better.rs"],
  [("payout table", "payout"), ("input validation", "get_wager, get_swaps"), ("card movement", "main, swap_cards")], observe=["jacks-or-better"])

p("C28", "Shuffles are uniform over all orderings",
  "Given a uniform random generator, every ordering of the 52 cards is equally likely in a shuffled deck.",
  ["inputs"], "the distribution over generator outputs",
  "A statistical statement over the generator's whole output distribution.",
  ["src/deck.rs"], [("library shuffle", "deck::shuffled_with")], observe=["deck::shuffled_with"])

p("C29", "The downloaded static tables equal the generated ones",
  "With the static table feature enabled, the downloaded suited and unsuited tables hold exactly the entries the evaluator generates at run time.",
  ["configurations"], "every entry of both tables",
  "The data is fetched from another repository at build time and is not part of this tree.",
  ["build.rs", "src/evaluate/static_lookup.rs"], [("build-time download", "build.rs")], observe=["static_lookup"])

p("C30", "Evaluation and table construction meet their stated cost",
  "Building an evaluator takes a fraction of a millisecond in optimised builds, and evaluating 5, 6 or 7 cards takes a small constant number of table lookups.",
  ["inputs"], "all hands, all machines",
  "Timing is not tested; benches need the network feature.",
  ["src/evaluate/lookup_table.rs", "src/evaluate/evaluation.rs"], [("hash lookups", "five")], observe=["wall time"])

p("C31", "Values and errors copy faithfully and compare by what they hold",
  "A copy of a rank, suit, hand class or error is the same as the original. Ranks, suits and hand classes are equal exactly when they are the same one. Two parse errors are equal exactly when the failed rule, the whole input and any offending character are the same; two evaluation errors exactly when they are of the same kind with the same cards in the same order, or the same number.",
  ["inputs"], "all pairs of ranks, suits, classes and error values",
  "Tests compare each error with one expected value and only ever expect equality; a comparison that is too generous passes them all.",
  ["src/error.rs", "src/card/rank.rs", "src/card/suit.rs", "src/evaluate/class.rs"],
  [("derived Clone, PartialEq, Eq, Hash", "Rank, Suit, EvalClass, ParseCardError, EvalError")],
  observe=["==", "!=", "Clone", "Hash of Rank and Suit"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
