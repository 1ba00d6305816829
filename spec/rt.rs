//! Reference versions of the runtime's own operations, written from their documentation.
//! Lowered to MIR and compared with /repo's; never run.
#![allow(warnings)]
use peg::error::{ExpectedSet, ParseError};
use peg::str::LineCol;
use peg::{Parse, RuleResult};
use std::collections::BTreeSet;
use std::fmt::{self, Display};

pub mod strs {
    use super::*;
    pub fn start(s: &str) -> usize {
        0
    }
    pub fn is_eof(s: &str, pos: usize) -> bool {
        pos == s.len()
    }
    pub fn parse_elem(s: &str, pos: usize) -> RuleResult<char> {
        match s[pos..].chars().next() {
            Some(c) => RuleResult::Matched(pos + c.len_utf8(), c),
            None => RuleResult::Failed,
        }
    }
    pub fn parse_string_literal(s: &str, pos: usize, literal: &str) -> RuleResult<()> {
        if s[pos..].starts_with(literal) {
            RuleResult::Matched(pos + literal.len(), ())
        } else {
            RuleResult::Failed
        }
    }
    pub fn parse_slice(s: &str, p1: usize, p2: usize) -> &str {
        &s[p1..p2]
    }
    pub fn position_repr(s: &str, pos: usize) -> LineCol {
        LineCol {
            line: 1 + s[..pos].chars().filter(|c| *c == '\n').count(),
            column: 1 + s[..pos].chars().rev().take_while(|c| *c != '\n').count(),
            offset: pos,
        }
    }
    pub fn fmt(l: &LineCol, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}:{}", l.line, l.column)
    }
}

pub mod slices {
    use super::*;
    pub fn start<T>(s: &[T]) -> usize {
        0
    }
    pub fn is_eof<T>(s: &[T], pos: usize) -> bool {
        pos == s.len()
    }
    pub fn parse_elem<T: Copy>(s: &[T], pos: usize) -> RuleResult<T> {
        if pos < s.len() {
            RuleResult::Matched(pos + 1, s[pos])
        } else {
            RuleResult::Failed
        }
    }
    pub fn parse_string_literal(s: &[u8], pos: usize, literal: &str) -> RuleResult<()> {
        if s[pos..].starts_with(literal.as_bytes()) {
            RuleResult::Matched(pos + literal.len(), ())
        } else {
            RuleResult::Failed
        }
    }
    pub fn parse_slice<T>(s: &[T], p1: usize, p2: usize) -> &[T] {
        &s[p1..p2]
    }
    pub fn position_repr<T>(s: &[T], pos: usize) -> usize {
        pos
    }
}

pub mod sets {
    use super::*;
    pub struct ExpectedSet {
        expected: BTreeSet<&'static str>,
    }
    pub fn tokens<'a>(e: &'a ExpectedSet) -> impl Iterator<Item = &'static str> + 'a {
        e.expected.iter().map(|x| *x)
    }
    pub fn fmt(e: &ExpectedSet, f: &mut fmt::Formatter) -> fmt::Result {
        let n = e.expected.len();
        if n == 0 {
            return f.write_str("<unreported>");
        }
        if n > 1 {
            f.write_str("one of ")?;
        }
        let mut it = e.expected.iter();
        match it.next() {
            Some(x) => f.write_str(x)?,
            None => {}
        }
        for x in it {
            f.write_str(", ")?;
            f.write_str(x)?;
        }
        Ok(())
    }
    pub fn fmt_join(e: &ExpectedSet, f: &mut fmt::Formatter) -> fmt::Result {
        let v: Vec<&'static str> = e.expected.iter().map(|x| *x).collect();
        match v.len() {
            0 => f.write_str("<unreported>"),
            1 => f.write_str(v[0]),
            _ => {
                f.write_str("one of ")?;
                f.write_str(&v.join(", "))
            }
        }
    }
}

pub mod errors {
    use super::*;
    pub fn fmt<L: Display>(e: &ParseError<L>, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("error at ")?;
        Display::fmt(&e.location, f)?;
        f.write_str(": expected ")?;
        Display::fmt(&e.expected, f)
    }

    pub struct ErrorState {
        pub max_err_pos: usize,
        pub suppress_fail: usize,
        pub reparsing_on_error: bool,
        pub expected: BTreeSet<&'static str>,
    }
    pub fn new(initial_pos: usize) -> ErrorState {
        ErrorState { max_err_pos: initial_pos, suppress_fail: 0, reparsing_on_error: false, expected: BTreeSet::new() }
    }
    pub fn reparse_for_error(s: &mut ErrorState) {
        s.suppress_fail = 0;
        s.reparsing_on_error = true;
    }
    pub fn mark_failure(s: &mut ErrorState, pos: usize, expected: &'static str) -> RuleResult<()> {
        if s.suppress_fail > 0 {
            return RuleResult::Failed;
        }
        if s.reparsing_on_error {
            if s.max_err_pos == pos {
                s.expected.insert(expected);
            }
        } else {
            if s.max_err_pos < pos {
                s.max_err_pos = pos;
            }
        }
        RuleResult::Failed
    }
    pub struct Report<L> {
        pub location: L,
        pub expected: BTreeSet<&'static str>,
    }
    pub fn into_parse_error<I: Parse + ?Sized>(s: ErrorState, input: &I) -> Report<I::PositionRepr> {
        Report { location: Parse::position_repr(input, s.max_err_pos), expected: s.expected }
    }
}
