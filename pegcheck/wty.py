"""Programs around grammars with lifetimes, type parameters, bounds, visibilities and return types: what Rust accepts and what it rejects."""
PE = '::peg::error::ParseError'
LC = PE + '<::peg::str::LineCol>'
PREL = '''
pub use ::peg::error::ParseError;
pub use ::peg::str::LineCol;
#[derive(Clone, Copy, PartialEq, Debug)] pub struct Tok<'a>(pub &'a str);
#[derive(Clone, Debug)] pub struct Node<'a> { pub name: &'a str, pub kids: Vec<Node<'a>> }
pub trait Shape { fn area(&self) -> u32; }
pub struct Sq(pub u32); impl Shape for Sq { fn area(&self) -> u32 { self.0 } }
pub struct NoClone;
pub mod deep { pub mod ast { #[derive(Clone)] pub struct Leaf(pub u32); pub fn mk() -> Leaf { Leaf(1) } } }
pub fn custom(i: &str, p: usize) -> ::peg::RuleResult<()> { ::peg::RuleResult::Failed }
'''


def P(rules, inp='str', lt='', args='', vis='pub '):
    return '::peg::parser!{ %sgrammar g%s(%s) for %s {\n%s\n}}\n' % (vis, lt, args, inp, rules)


GOOD = [
    # values borrow from the input, for as long as it lives
    P("  pub rule a() -> &'input str = $(['a'..='z']+)\n  pub rule l() -> Vec<&'input str> = a() ** \",\"") +
    "pub const F: for<'i> fn(&'i str) -> Result<&'i str, %s> = g::a;\npub const L: for<'i> fn(&'i str) -> Result<Vec<&'i str>, %s> = g::l;\n" % (LC, LC) +
    "pub fn keep<'x>(s: &'x str) -> Option<&'x str> { let v = { let t = g::a(s); t.ok() }; v }\npub fn st() -> Result<&'static str, %s> { g::a(\"abc\") }\n" % LC,
    P("  pub rule n() -> Node<'input> = name:$(['a'..='z']+) \"(\" kids:n() ** \",\" \")\" { Node { name, kids } }") +
    "pub const F: for<'i> fn(&'i str) -> Result<Node<'i>, %s> = g::n;\n" % LC,
    P("  pub rule a() -> &'input [u8] = $([b'a'..=b'z']+)\n  pub rule b() -> u8 = [_]", '[u8]') +
    "pub const F: for<'i> fn(&'i [u8]) -> Result<&'i [u8], %s<usize>> = g::a;\npub const G: for<'i> fn(&'i [u8]) -> Result<u8, %s<usize>> = g::b;\n" % (PE, PE),
    # lifetime of the grammar
    P("  pub rule t() -> &'a str = [Tok(s)] { s }\n  pub rule s() -> &'input [Tok<'a>] = $([_]*)", "[Tok<'a>]", "<'a>") +
    "pub fn f<'a>(v: &[Tok<'a>]) -> Option<&'a str> { g::t(v).ok() }\npub fn h<'i, 'a>(v: &'i [Tok<'a>]) -> Option<&'i [Tok<'a>]> { g::s(v).ok() }\n",
    P("  pub rule t() -> (&'a str, &'b str) = [(Tok(x), Tok(y))] { (x, y) }", "[(Tok<'a>, Tok<'b>)]", "<'a, 'b>") +
    "pub fn f<'a, 'b>(v: &[(Tok<'a>, Tok<'b>)]) -> Option<(&'a str, &'b str)> { g::t(v).ok() }\n",
    P("  #[cache] rule t() -> &'a str = [Tok(s)] { s }\n  pub rule u() -> &'a str = t()", "[Tok<'a>]", "<'a>") + "pub fn f<'a>(v: &[Tok<'a>]) -> Option<&'a str> { g::u(v).ok() }\n",
    # lifetime of a rule
    P("  pub rule r<'x>(s: &'x str) -> &'x str = \"a\" { s }\n  pub rule q<'x, 'y>(s: &'x str, t: &'y str) -> (&'y str, &'x str) = v:r(s) w:r(t) { (w, v) }") +
    "pub const F: for<'i, 'x> fn(&'i str, &'x str) -> Result<&'x str, %s> = g::r;\npub fn h<'x>(s: &'x str) -> Option<&'x str> { let t = String::from(\"a\"); let r = g::r(&t, s); r.ok() }\n" % LC,
    P("  pub rule r<'x>(s: &'x str) -> (&'x str, &'input str) = t:$(\"a\") { (s, t) }") + "pub const F: for<'i, 'x> fn(&'i str, &'x str) -> Result<(&'x str, &'i str), %s> = g::r;\n" % LC,
    # type parameters and bounds
    P("  pub rule r<T: Copy>(n: T) -> T = \"a\" { n }\n  pub rule q<T: Copy + PartialOrd<T>, U>(n: T, m: U) -> T where U: Into<T> + Copy = \"a\" { if n < m.into() { n } else { m.into() } }") +
    "pub const F: fn(&str, u8) -> Result<u8, %s> = g::r::<u8>;\npub const G: fn(&str, u32, u8) -> Result<u32, %s> = g::q::<u32, u8>;\n" % (LC, LC),
    P("  rule l<T>(x: rule<T>, s: rule<()>) -> Vec<T> = x() ** s()\n  rule two<T, U>(x: rule<T>, y: rule<U>) -> (T, U) = a:x() b:y() { (a, b) }\n"
      "  pub rule r() -> Vec<(char, &'input str)> = l(<two(<['a']>, <$(\"b\")>)>, <\",\">)\n  pub rule s() -> Vec<u8> = l::<u8>(<\"a\" { 1 }>, <\",\" {}>)") +
    "pub const F: for<'i> fn(&'i str) -> Result<Vec<(char, &'i str)>, %s> = g::r;\n" % LC,
    P("  rule r<T>(x: rule<T>) -> Vec<T> where T: Clone + Default = v:x()? { vec![v.clone().unwrap_or_default(), v.unwrap_or_default()] }\n  pub rule s() -> Vec<u8> = r(<\"a\" { 1u8 }>)"),
    P("  rule r<T, F>(x: rule<T>, f: F) -> u32 where F: Fn(T) -> u32, = v:x() { f(v) }\n  pub rule s() -> u32 = r(<\"a\" { 1u8 }>, |b| b as u32 + 1)"),
    P("  rule r<T>(f: &dyn Fn(u8) -> T) -> T = \"a\" { f(1) }\n  pub rule s() -> String = r(&|b| b.to_string())\n  pub rule t(k: u8) -> u8 = r(&|b| b + k)"),
    P("  rule r<T: for<'z> Fn(&'z str) -> usize>(f: T) -> usize = v:$(\"a\"+) { f(v) }\n  pub rule s() -> usize = r(str::len)"),
    P("  rule r<T: ?Sized + Shape>(f: &T) -> u32 = \"a\" { f.area() }\n  pub rule s() -> u32 = r(&Sq(2))"),
    P("  rule r<'z, T: 'z + Clone>(f: &'z T) -> T = \"a\" { f.clone() }\n  pub rule s() -> u8 = r(&3)"),
    P("  rule r<const N: usize>() -> usize = \"a\"*<{N}> { N }\n  pub rule s() -> usize = r::<3>()") if False else P("  rule r<T: Default>() -> T = \"a\" { T::default() }\n  pub rule s() -> u8 = r::<u8>()\n  pub rule t() -> u16 = r()"),
    # shapes of return types
    P("  pub rule a() -> Box<dyn Shape> = \"a\" { Box::new(Sq(1)) }\n  pub rule b() -> Box<dyn Shape + Send + 'static> = \"b\" { Box::new(Sq(1)) }\n  pub rule c() -> impl Shape = \"c\" { Sq(1) }\n"
      "  pub rule d() -> (u8, Option<Vec<(u8, char)>>) = \"d\" { (1, None) }\n  pub rule e() -> [u8; 2] = \"e\" { [1, 2] }\n  pub rule f() -> fn(u8) -> u8 = \"f\" { fn id(x: u8) -> u8 { x } id }\n"
      "  pub rule h() -> () = \"h\" { }\n  pub rule i() -> &'static str = \"i\" { \"i\" }\n  pub rule j() -> Box<dyn Fn(u8) -> u8> = \"j\" { Box::new(|x| x) }\n  pub rule k() -> <u8 as ::std::ops::Add<u8>>::Output = \"k\" { 1 }\n"
      "  pub rule l() -> Option<&'input str> = $(\"l\")?\n  pub rule m() -> ::std::collections::BTreeMap<u8, Vec<u8>> = \"m\" { Default::default() }\n  pub rule n() -> Result<u8, &'static str> = \"n\" { Ok(1) }") +
    "pub const A: fn(&str) -> Result<Box<dyn Shape>, %s> = g::a;\npub const B: fn(&str) -> Result<Box<dyn Shape + Send + 'static>, %s> = g::b;\npub fn c() -> Option<u32> { g::c(\"c\").ok().map(|x| x.area()) }\n"
    "pub const D: fn(&str) -> Result<(u8, Option<Vec<(u8, char)>>), %s> = g::d;\npub const E: fn(&str) -> Result<[u8; 2], %s> = g::e;\npub const F: fn(&str) -> Result<fn(u8) -> u8, %s> = g::f;\n"
    "pub const H: fn(&str) -> Result<(), %s> = g::h;\npub const N: fn(&str) -> Result<Result<u8, &'static str>, %s> = g::n;\n" % ((LC,) * 7),
    P("  rule u() = \"a\"\n  pub rule v() = u() \"b\"") + "pub const F: fn(&str) -> Result<(), %s> = g::v;\n" % LC,
    # grammar arguments
    P("  pub rule r() -> u32 = \"a\" { x + y.len() as u32 }\n  pub rule s(z: u8) -> u32 = v:r() { v + z as u32 }", args='x: u32, y: &str') +
    "pub const F: fn(&str, u32, &str) -> Result<u32, %s> = g::r;\npub const G: fn(&str, u32, &str, u8) -> Result<u32, %s> = g::s;\n" % (LC, LC),
    P("  pub rule r() -> bool = s:$([_]*) { names.contains(&s) }", args="names: &[&str]") + "pub fn f(s: &str) -> bool { let v = vec![\"a\"]; g::r(s, &v).unwrap_or(false) }\n",
    # visibility
    'pub mod m { use super::*; ' + P("  pub rule a() = \"a\"\n  pub(crate) rule b() = \"b\"\n  pub(super) rule c() = \"c\"\n  pub(in super::super) rule d() = \"d\"") + 'pub fn f() { let _ = (g::a(""), g::b(""), g::c("")); } }\npub fn h() { let _ = (m::g::a(""), m::g::b("")); }\n',
    P("  pub rule a() = \"a\"", vis='') + 'pub fn f() -> bool { g::a("a").is_ok() }\n',
    P("  pub rule a() = \"a\"", vis='pub(crate) ') + 'pub fn f() -> bool { g::a("a").is_ok() }\n',
    P("  /// doc of a\n  pub rule a() = \"a\"\n  /// doc of a private one\n  rule b() = \"b\"", vis='/// doc\n/// more\n#[doc = "attr"] pub ') + 'pub fn f() -> bool { g::a("a").is_ok() }\n',
    # imports
    P("  use crate::deep::ast::Leaf;\n  pub rule a() -> Leaf = \"a\" { Leaf(1) }") + "pub const F: fn(&str) -> Result<deep::ast::Leaf, %s> = g::a;\n" % LC,
    P("  use crate::deep::ast::{Leaf, mk as make};\n  use crate::deep::*;\n  pub rule a() -> Leaf = \"a\" { make() }\n  pub rule b() -> ast::Leaf = \"a\" { ast::mk() }"),
    P("  use crate::deep::ast as tree;\n  pub rule a() -> tree::Leaf = \"a\" { tree::mk() }"),
    'pub mod m { pub struct Own(pub u8); ' + P("  pub rule a() -> Own = \"a\" { Own(1) }") + '}\npub fn f(s: &str) -> Option<m::Own> { m::g::a(s).ok() }\n',
    # inside a function
    'pub fn f(s: &str) -> bool { ' + P("  pub rule a() = \"a\"", vis='') + ' g::a(s).is_ok() }\n',
]

# (program, code that must be reported, stage) with the offending place marked
BAD = [
    # outliving the input
    (P("  pub rule a() -> &'input str = $([_]*)") + "pub fn f() -> Option<&'static str> { let s = String::from(\"a\"); «g::a(&s).ok()» }\n", 'borrow'),
    (P("  pub rule a() -> &'input str = $([_]*)") + "pub fn f() { let r; { let s = String::from(\"a\"); r = g::a(«&s»); } drop(r); }\n", 'borrow'),
    (P("  pub rule a() -> Vec<&'input str> = ($([_])) ** \",\"") + "pub fn f() { let mut v = vec![]; for _ in 0..2 { let s = String::from(\"a\"); v.extend(g::a(«&s»).unwrap()); } }\n", 'borrow'),
    (P("  pub rule n() -> Node<'input> = name:$([_]*) { Node { name, kids: vec![] } }") + "pub fn f<'x>(s: &'x str, o: &'static str) -> Node<'static> { «g::n(s).unwrap()» }\n", 'borrow'),
    (P("  pub rule a() -> &'input [u8] = $([_]*)", '[u8]') + "pub fn f() { let r; { let s = vec![1u8]; r = g::a(«&s»); } drop(r); }\n", 'borrow'),
    (P("  pub rule s() -> &'input [Tok<'a>] = $([_]*)", "[Tok<'a>]", "<'a>") + "pub fn f<'a>(v: Vec<Tok<'a>>) -> &'a [Tok<'a>] { «g::s(&v).unwrap()» }\n", 'borrow'),
    (P("  pub rule t() -> &'a str = [Tok(s)] { s }", "[Tok<'a>]", "<'a>") + "pub fn f() { let r; { let s = String::from(\"a\"); let v = vec![Tok(«&s»)]; r = g::t(&v).unwrap(); } drop(r); }\n", 'borrow'),
    (P("  pub rule a() -> &'static str = «$([_]*)»"), 'borrow'),
    (P("  pub rule a() -> &'static str = s:$([_]*) { «s» }"), 'borrow'),
    (P("  rule b() -> &'input str = $([_]*)\n  pub rule a() -> &'static str = «b()»"), 'borrow'),
    (P("  #[cache] rule b() -> &'input str = $([_]*)\n  pub rule a() -> &'input str = b()") + "pub fn f() -> &'static str { let s = String::new(); «g::a(&s).unwrap()» }\n", 'borrow'),
    # lifetimes of rules and grammars
    (P("  pub rule r<'x>(s: &'x str) -> &'x str = t:$(\"a\") { «t» }"), 'borrow'),
    (P("  pub rule r<'x>(s: &'x str) -> &'input str = \"a\" { «s» }"), 'borrow'),
    (P("  pub rule r<'x, 'y>(s: &'x str, t: &'y str) -> &'x str = \"a\" { «t» }"), 'borrow'),
    (P("  pub rule r<'x>(s: &'x str) -> &'x str = \"a\" { s }") + "pub fn f() { let r; { let t = String::from(\"a\"); r = g::r(\"a\", «&t»).unwrap(); } drop(r); }\n", 'borrow'),
    (P("  pub rule t() -> &'a str = [(Tok(x), Tok(y))] { «y» }", "[(Tok<'a>, Tok<'b>)]", "<'a, 'b>"), 'borrow'),
    (P("  pub rule t() -> &'input str = [Tok(s)] { s }\n  pub rule u() -> &'a &'static str = v:t() { «&\"\"» }".replace("  pub rule u() -> &'a &'static str = v:t() { «&\"\"» }", "  pub rule u() -> &'a [Tok<'a>] = «$([_]*)»"), "[Tok<'a>]", "<'a>"), 'borrow'),
    (P("  pub rule r() -> &'static str = \"a\" { «x» }", args='x: &str'), 'borrow'),
    (P("  pub rule r() -> &'static str = \"a\" { x }", args="x: &'static str") + "pub fn f() { let s = String::new(); let r = g::r(\"a\", «&s»); }\n", 'borrow'),
    # bounds
    (P("  pub rule r<T: Copy>(n: T) -> T = \"a\" { n }") + "pub fn f() { let _ = g::r(\"a\", «NoClone»); }\n", 'type'),
    (P("  rule r<T: Clone>(x: rule<T>) -> T = x()\n  pub rule s() -> NoClone = «r(<\"a\" { NoClone }>)»"), 'type'),
    (P("  rule r<T>(x: rule<T>) -> T where T: Clone = x()\n  pub rule s() -> NoClone = «r(<\"a\" { NoClone }>)»"), 'type'),
    (P("  rule r<T>(x: rule<T>, n: &T) -> T = v:x() { «n.clone()» }"), 'type'),
    (P("  rule r<T: Shape>(n: T) -> u32 = \"a\" { n.area() }\n  pub rule s() -> u32 = r(«3u8»)"), 'type'),
    (P("  rule r<T, U>(x: rule<T>, y: rule<U>) -> (T, U) = a:x() b:y() { «(b, a)» }"), 'type'),
    (P("  rule r<T>(x: rule<T>) -> Vec<T> = x()*\n  pub rule s() -> Vec<u8> = «r(<['a']>)»"), 'type'),
    (P("  pub rule r() -> u32 = \"a\" { 1 }", args='x: u32') + "pub fn f() { let _ = g::«r»(\"a\"); }\n", 'type'),
    (P("  pub rule r(z: u8) -> u32 = \"a\" { 1 }", args='x: &str') + "pub fn f() { let _ = g::«r»(\"a\", 1, \"x\"); }\n", 'type'),
    (P("  pub rule r() -> u32 = \"a\" { 1 }") + "pub fn f() -> Result<u64, %s> { «g::r(\"a\")» }\n" % LC, 'type'),
    (P("  pub rule r() = \"a\"") + "pub fn f() -> Result<u64, %s> { «g::r(\"a\")» }\n" % LC, 'type'),
    (P("  pub rule c() -> impl Shape = \"c\" { Sq(1) }") + "pub fn f() -> u32 { let x = g::c(\"c\").unwrap(); x.«0» }\n", 'type'),
    (P("  pub rule r() -> char = [_]", '[u8]') if False else P("  pub rule r() -> char = «[_]»", '[u8]'), 'type'),
    (P("  pub rule r() -> u8 = [_]", '[u8]') + "pub fn f() { let _ = g::r(«\"a\"»); }\n", 'type'),
    # visibility
    (P("  rule a() = \"a\"\n  pub rule b() = a()") + "pub fn f() { let _ = g::«a»(\"a\"); }\n", 'resolve'),
    (P("  #[cache] rule a() -> u8 = \"a\" { 1 }\n  pub rule b() = a()") + "pub fn f() { let _ = g::«a»(\"a\"); }\n", 'resolve'),
    ('pub mod m { use super::*; ' + P("  pub rule a() = \"a\"", vis='') + '}\npub fn f() { let _ = m::«g»::a("a"); }\n', 'resolve'),
    ('pub mod m { use super::*; pub mod n { use super::*; ' + P("  pub(super) rule a() = \"a\"") + '} }\npub fn f() { let _ = m::n::g::«a»("a"); }\n', 'resolve'),
    ('pub mod m { use super::*; pub mod n { use super::*; ' + P("  pub(self) rule a() = \"a\"") + 'pub fn f() { let _ = g::«a»("a"); } } }\n', 'resolve'),
    ('pub mod m { use super::*; pub mod n { use super::*; ' + P("  pub rule a() = \"a\"", vis='pub(super) ') + '} }\npub fn f() { let _ = m::n::«g»::a("a"); }\n', 'resolve'),
    (P("  pub rule a() = \"a\"\n  rule b() = \"b\"") + "pub fn f() { let _ = g::«__parse_b»(\"a\"); }\n", 'resolve'),
    (P("  use crate::deep::ast::mk;\n  pub rule a() = \"a\"") + "pub fn f() { let _ = g::«mk»(); }\n", 'resolve'),
    (P("  rule r<T: «Nope»>(x: T) -> T = \"a\" { x }"), 'resolve'),
    (P("  pub rule a() -> &'«nope» str = $(\"a\")"), 'resolve'),
]
