//! Compiles exactly when the public types can be sent to and shared between threads.
#![allow(dead_code)]
use poker::{Card, Eval, EvalClass, EvalError, Evaluator, ParseCardError, Rank, Suit};

const fn shareable<T: Send + Sync + 'static>() {}

// @evaluator
const EVALUATOR: () = shareable::<Evaluator>();
// @evaluations
const EVAL: () = shareable::<Eval>();
const CLASS: () = shareable::<EvalClass>();
// @cards
const CARD: () = shareable::<Card>();
const RANK: () = shareable::<Rank>();
const SUIT: () = shareable::<Suit>();
// @errors
const PARSE_ERROR: () = shareable::<ParseCardError>();
const EVAL_ERROR: () = shareable::<EvalError>();
// @results
const RESULT: () = shareable::<Result<Eval, EvalError>>();
