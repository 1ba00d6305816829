//! Stand-in for the runtime crate on the reference side of the product analysis: same public names,
//! input operations left abstract, error recording and precedence climbing as documented.
//! Type-checked and lowered to MIR only; never run.
#![allow(dead_code, unused)]

#[derive(Clone, PartialEq, PartialOrd, Eq, Ord, Debug, Hash)]
pub enum RuleResult<T> {
    Matched(usize, T),
    Failed,
}
pub trait Parse {
    type PositionRepr: std::fmt::Display;
    fn start<'input>(&'input self) -> usize;
    fn is_eof<'input>(&'input self, p: usize) -> bool;
    fn position_repr<'input>(&'input self, p: usize) -> Self::PositionRepr;
}
pub trait ParseElem<'input>: Parse {
    type Element: Copy;
    fn parse_elem(&'input self, pos: usize) -> RuleResult<Self::Element>;
}
pub trait ParseLiteral: Parse {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()>;
}
pub trait ParseSlice<'input>: Parse {
    type Slice;
    fn parse_slice(&'input self, p1: usize, p2: usize) -> Self::Slice;
}
pub fn call_custom_closure<I, T>(f: impl FnOnce(I, usize) -> RuleResult<T>, input: I, pos: usize) -> RuleResult<T> {
    f(input, pos)
}

pub mod error {
    use super::Parse;
    use std::collections::BTreeSet;
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct ExpectedSet {
        expected: BTreeSet<&'static str>,
    }
    impl std::fmt::Display for ExpectedSet {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> {
            Ok(())
        }
    }
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }
    impl<L: std::fmt::Display> std::fmt::Display for ParseError<L> {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> {
            Ok(())
        }
    }
    impl<L: std::fmt::Display + std::fmt::Debug> std::error::Error for ParseError<L> {}
    pub struct ErrorState {
        pub max_err_pos: usize,
        pub suppress_fail: usize,
        pub reparsing_on_error: bool,
        pub expected: ExpectedSet,
    }
    impl ErrorState {
        pub fn new(initial_pos: usize) -> Self {
            ErrorState {
                max_err_pos: initial_pos,
                suppress_fail: 0,
                reparsing_on_error: false,
                expected: ExpectedSet { expected: BTreeSet::new() },
            }
        }
        pub fn reparse_for_error(&mut self) {
            self.suppress_fail = 0;
            self.reparsing_on_error = true;
        }
        /// A failure at `pos`: the first run keeps the furthest position, the second run collects the
        /// descriptions found at exactly that position; suppressed failures are ignored.
        pub fn mark_failure(&mut self, pos: usize, expected: &'static str) -> super::RuleResult<()> {
            if self.suppress_fail > 0 {
                return super::RuleResult::Failed;
            }
            if self.reparsing_on_error {
                if self.max_err_pos == pos {
                    self.expected.expected.insert(expected);
                }
            } else {
                if self.max_err_pos < pos {
                    self.max_err_pos = pos;
                }
            }
            super::RuleResult::Failed
        }
        pub fn into_parse_error<I: Parse + ?Sized>(self, input: &I) -> ParseError<I::PositionRepr> {
            ParseError { location: Parse::position_repr(input, self.max_err_pos), expected: self.expected }
        }
    }
}

use error::ErrorState;
type Rec<'a, T, S> = &'a dyn Fn(usize, i32, &mut S, &mut ErrorState) -> RuleResult<T>;

/// Precedence climbing: an atom or prefix form first, then, as long as an operator of at least the
/// required level applies, the operand so far becomes its left operand.
pub fn climb<T, S>(
    st: &mut S,
    er: &mut ErrorState,
    min: i32,
    pos: usize,
    atom: &dyn Fn(usize, &mut S, &mut ErrorState, Rec<T, S>) -> RuleResult<T>,
    ops: &dyn Fn(usize, usize, i32, T, &mut S, &mut ErrorState, Rec<T, S>) -> Result<(usize, T), T>,
) -> RuleResult<T> {
    match atom(pos, st, er, &|p, m, st, er| climb(st, er, m, p, atom, ops)) {
        RuleResult::Failed => RuleResult::Failed,
        RuleResult::Matched(mut end, mut val) => loop {
            match ops(end, pos, min, val, st, er, &|p, m, st, er| climb(st, er, m, p, atom, ops)) {
                Ok((e, v)) => {
                    end = e;
                    val = v;
                }
                Err(v) => return RuleResult::Matched(end, v),
            }
        },
    }
}

/// The same, saying at which level operators are looked for, once an operand is there, and when that ends.
pub fn climb_traced<T, S>(
    st: &mut S,
    er: &mut ErrorState,
    min: i32,
    pos: usize,
    atom: &dyn Fn(usize, &mut S, &mut ErrorState, Rec<T, S>) -> RuleResult<T>,
    ops: &dyn Fn(usize, usize, i32, T, &mut S, &mut ErrorState, Rec<T, S>) -> Result<(usize, T), T>,
) -> RuleResult<T> {
    match atom(pos, st, er, &|p, m, st, er| climb_traced(st, er, m, p, atom, ops)) {
        RuleResult::Failed => RuleResult::Failed,
        RuleResult::Matched(mut end, mut val) => {
            println!("[PEG_TRACE] Entering level {}", min);
            loop {
                match ops(end, pos, min, val, st, er, &|p, m, st, er| climb_traced(st, er, m, p, atom, ops)) {
                    Ok((e, v)) => {
                        end = e;
                        val = v;
                    }
                    Err(v) => {
                        println!("[PEG_TRACE] Leaving level {}", min);
                        return RuleResult::Matched(end, v);
                    }
                }
            }
        }
    }
}

pub mod str {
    use super::*;
    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }
    impl std::fmt::Display for LineCol {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> {
            Ok(())
        }
    }
    impl Parse for str {
        type PositionRepr = LineCol;
        fn start(&self) -> usize {
            loop {}
        }
        fn is_eof(&self, pos: usize) -> bool {
            loop {}
        }
        fn position_repr(&self, pos: usize) -> LineCol {
            loop {}
        }
    }
    impl<'input> ParseElem<'input> for str {
        type Element = char;
        fn parse_elem(&'input self, pos: usize) -> RuleResult<char> {
            loop {}
        }
    }
    impl ParseLiteral for str {
        fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
            loop {}
        }
    }
    impl<'input> ParseSlice<'input> for str {
        type Slice = &'input str;
        fn parse_slice(&'input self, p1: usize, p2: usize) -> &'input str {
            loop {}
        }
    }
}
impl<T> Parse for [T] {
    type PositionRepr = usize;
    fn start(&self) -> usize {
        loop {}
    }
    fn is_eof(&self, pos: usize) -> bool {
        loop {}
    }
    fn position_repr(&self, pos: usize) -> usize {
        loop {}
    }
}
impl<'input, T: 'input + Copy> ParseElem<'input> for [T] {
    type Element = T;
    fn parse_elem(&'input self, pos: usize) -> RuleResult<T> {
        loop {}
    }
}
impl ParseLiteral for [u8] {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
        loop {}
    }
}
impl<'input, T: 'input> ParseSlice<'input> for [T] {
    type Slice = &'input [T];
    fn parse_slice(&'input self, p1: usize, p2: usize) -> &'input [T] {
        loop {}
    }
}
