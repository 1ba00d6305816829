//! Opaque user code shared by witness grammars: nothing is known about these items but their names.
#![allow(dead_code, unused_variables, non_camel_case_types)]
#[derive(Clone)]
pub struct T(pub u8);
#[derive(Clone)]
pub struct U(pub u8);
pub fn mk() -> T { loop {} }
pub fn one<A>(a: A) -> T { loop {} }
pub fn two<A, B>(a: A, b: B) -> T { loop {} }
pub fn three<A, B, C>(a: A, b: B, c: C) -> T { loop {} }
pub fn four<A, B, C, D>(a: A, b: B, c: C, d: D) -> T { loop {} }
pub fn five<A, B, C, D, E>(a: A, b: B, c: C, d: D, e: E) -> T { loop {} }
pub fn nothing() {}
pub fn cond<A>(a: A) -> Result<T, &'static str> { loop {} }
pub fn cond2<A, B>(a: A, b: B) -> Result<T, &'static str> { loop {} }
pub fn guard<A>(a: A) -> bool { loop {} }
pub fn num() -> usize { loop {} }
pub fn numof<A>(a: A) -> usize { loop {} }
pub fn custom<I: ?Sized>(i: &I, p: usize) -> ::peg::RuleResult<T> { loop {} }
pub fn custom1<'i, A, I: ?Sized>(a: A) -> impl Fn(&'i I, usize) -> ::peg::RuleResult<T> + 'i where I: 'i { |i: &I, p: usize| loop {} }
pub fn custom2<'i, A, I: ?Sized>(a: A) -> impl FnOnce(&'i I, usize) -> ::peg::RuleResult<T> where I: 'i { |i: &I, p: usize| loop {} }
pub fn binop(a: T, o: T, b: T) -> T { loop {} }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tk { A, B(u8), C { x: u8, y: u8 }, D }

/// An input type of the user's own
pub struct In(pub u8);
impl ::peg::Parse for In {
    type PositionRepr = usize;
    fn start<'input>(&'input self) -> usize { loop {} }
    fn is_eof<'input>(&'input self, p: usize) -> bool { loop {} }
    fn position_repr<'input>(&'input self, p: usize) -> usize { loop {} }
}
impl<'input> ::peg::ParseElem<'input> for In {
    type Element = Tk;
    fn parse_elem(&'input self, pos: usize) -> ::peg::RuleResult<Tk> { loop {} }
}
impl ::peg::ParseLiteral for In {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> ::peg::RuleResult<()> { loop {} }
}
impl<'input> ::peg::ParseSlice<'input> for In {
    type Slice = U;
    fn parse_slice(&'input self, p1: usize, p2: usize) -> U { loop {} }
}
impl In {
    pub fn meth(&self, pos: usize) -> ::peg::RuleResult<T> { loop {} }
    pub fn meth1<A>(&self, pos: usize, a: A) -> ::peg::RuleResult<T> { loop {} }
    pub fn meth2<A, B>(&self, pos: usize, a: A, b: B) -> ::peg::RuleResult<T> { loop {} }
}
pub trait Dflt: Clone {
    fn dflt() -> Self;
}
impl Dflt for u8 {
    fn dflt() -> u8 { loop {} }
}
impl Dflt for u16 {
    fn dflt() -> u16 { loop {} }
}
impl<A> Dflt for Vec<A>
where
    A: Clone,
{
    fn dflt() -> Vec<A> { loop {} }
}
impl<A: Clone, B: Clone> Dflt for (A, B) {
    fn dflt() -> (A, B) { loop {} }
}
