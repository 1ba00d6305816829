"""Programs around input types of the user and around the public types of the runtime library: what must compile and what must not."""
from . import grammar, wfam, witness

PRE = '''
pub use ::peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
pub struct Pos(usize);
impl ::std::fmt::Display for Pos { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("p") } }
pub struct PosL<'a>(&'a Own);
impl ::std::fmt::Display for PosL<'_> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("p") } }
pub struct Val;
pub struct Own(pub Vec<String>);
#[derive(Clone)] pub struct CVal(pub ::std::rc::Rc<u8>);
#[derive(Clone, Copy)] pub enum Tk { A, B, C(char) }
#[derive(Clone, Copy)] pub struct Rf<'a>(pub &'a Own);
impl Tk { pub fn ok(&self) -> bool { false } }
'''
# an input: nothing but what the traits ask for
HEAD = '''#[allow(dead_code)] %(decl)s
impl%(lt)s ::peg::Parse for %(ty)s { type PositionRepr = %(pos)s; fn start<'input>(&'input self) -> usize { 0 } fn is_eof<'input>(&'input self, p: usize) -> bool { true } fn position_repr<'input>(&'input self, p: usize) -> %(pos)s { %(mkpos)s } }
impl%(lt)s %(self)s { pub fn meth(&self, p: usize) -> RuleResult<Val> { RuleResult::Failed } pub fn eat(&self, p: usize) -> RuleResult<Val> { RuleResult::Failed } pub fn mu(&self, p: usize) -> RuleResult<()> { RuleResult::Failed } }
'''
DECL = [
    # neither Clone nor Debug nor Send
    ('own', dict(decl='pub struct In(pub Own, pub *mut u8);', lt='', ty='In', self='In'), 'In', '', ''),
    # unsized
    ('unsized', dict(decl='pub struct In { pub n: usize, pub t: [Own] }', lt='', ty='In', self='In'), 'In', '', ''),
    ('dyn', dict(decl='pub trait Src { fn get(&self, p: usize) -> Own; }\npub type In = dyn Src;', lt='', ty='In', self='In'), 'In', '', ''),
    # with lifetimes, invariant in one
    ('life', dict(decl="pub struct In<'a, 'b>(pub &'a Own, pub ::std::cell::Cell<&'b str>);", lt="<'a, 'b>", ty="In<'a, 'b>", self="In<'a, 'b>", pos="PosL<'a>", mkpos='PosL(self.0)'), "In<'a, 'b>", "<'a, 'b>", ''),
    # an instance of a generic type
    ('gen', dict(decl='pub struct Of<T: ?Sized>(pub ::std::marker::PhantomData<T>);', lt='<T: ?Sized>', ty='Of<T>', self='Of<T>'), 'Of<[Own]>', '', ''),
]
TRAITS = {
    'elem': "impl%(ltc)s ::peg::ParseElem<'input> for %(ty)s { type Element = Tk; fn parse_elem(&'input self, p: usize) -> RuleResult<Tk> { RuleResult::Failed } }\n",
    'ref': "impl%(ltc)s ::peg::ParseElem<'input> for %(ty)s { type Element = Rf<'input>; fn parse_elem(&'input self, p: usize) -> RuleResult<Rf<'input>> { RuleResult::Failed } }\n",
    'lit': "impl%(lt)s ::peg::ParseLiteral for %(ty)s { fn parse_string_literal(&self, p: usize, l: &str) -> RuleResult<()> { RuleResult::Failed } }\n",
    'cut': "impl%(ltc)s ::peg::ParseSlice<'input> for %(ty)s { type Slice = Own; fn parse_slice(&'input self, p: usize, q: usize) -> Own { loop {} } }\n",
}
SETS = [(), ('elem',), ('ref',), ('lit',), ('cut',), ('elem', 'lit'), ('elem', 'cut'), ('lit', 'cut'), ('ref', 'cut', 'lit')]

BASE = '''  rule c0() -> Val = ##eat()
  rule n0() -> Option<Val> = ##eat()?
  rule u0() = ##mu()
  rule up<T>(x: rule<T>) -> T = x()
  rule two(x: rule<Val>, k: Val, y: rule<()>) -> Val = v:x() y() { v }
  #[cache] rule nc() -> CVal = ##eat() { CVal(::std::rc::Rc::new(1)) }
  #[cache] rule nu() = ##mu()
  #[cache_left_rec] rule nl() -> CVal = nl() ##eat() { CVal(::std::rc::Rc::new(1)) } / nc()
  pub rule top() -> Val = c0()
  #[no_eof] pub rule top_any() -> Val = v:c0() { v }
  pub rule top_arg(k: u8, o: &Own) -> Val = c0() { let _ = o; Val }
  #[cache] #[no_eof] pub rule top_nc() -> CVal = nl()
  rule _ = u0()*
'''
# the value of an embedded matcher is that of its place: nothing throws it away
UNIT = ['##mu()', '#{|i, p| i.mu(p)}', 'u0()', 'nu()', '_']
VALUED = ['##meth()', '#{|i, p| i.eat(p)}', 'up(<##meth()>)']
LEAVES = {
    None: ['position!()', 'c0()', 'n0()', 'nc()', 'nl()', 'two(<c0()>, Val, <##mu()>)', '(##meth() { Val })', '(v:c0() {? Ok(v) })',
           '(v:c0() {? let r: Result<Val, &\'static str> = Err("no"); r })', '(c0() / expected!("x"))', 'top_any()'],
    'elem': ['[Tk::A]', '[_]', '[^ Tk::A]', "[Tk::A | Tk::C('a'..='z')]", '[t if t.ok()]', '[x @ Tk::B]', '[Tk::C(c)]'],
    'ref': ['[_]', '[Rf(o)]', '[r if r.0.0.is_empty()]', '[^ Rf(_)]'],
    'lit': ['"a"', '""', 'r#"b"#'],
    'cut': ['$(c0())', '$(u0() n0())', '$(##meth()+)', '$(position!())'],
}
VALUES = ['v:%s { let _ = v; Val }', 'v:(%s)? { let _ = v; Val }', 'v:(%s)+ { drop(v); Val }', 'a:%s b:c0() { let _ = a; b }', '&(%s) v:c0() { v }', 'precedence!{ x:(@) (%s) y:@ { drop(y); x } -- ##eat() { Val } }',
          'precedence!{ (%s) y:@ { y } y:@ ##eat() { y } -- l:position!() v:c0() { v } }', 'v:quiet!{ %s } { let _ = v; Val }', 'v:(%s ** c0()) { drop(v); Val }', 'v:(c0() ++ (%s)) { drop(v); Val }', 'v:up(<%s>) { let _ = v; Val }',
          '%s v:up(<##eat()>) {? let r: Result<Val, &\'static str> = Ok(v); r }']


def text(decl, ty, glt, traits, rules, lim=''):
    d = dict({'pos': 'Pos', 'mkpos': 'Pos(p)'}, **decl)
    d['ltc'] = "<'input" + (', ' + d['lt'][1:] if d['lt'] else '>')
    head = HEAD % d if d['self'] else ''.join(l + '\n' for l in (HEAD % d).split('\n')[:-2])
    return head + ''.join(TRAITS[t] % d for t in traits) + '::peg::parser!{ pub grammar g%s(k: Own0) for %s {\n%s%s}}\n'.replace('(k: Own0)', '()') % (glt, ty, BASE, ''.join('  %s\n' % r for r in rules))


def bodies(ls, full, k, cut):
    for n, x in enumerate(ls):
        unit = x in UNIT or x in LEAVES['lit']
        yield x
        for i, (m, f) in enumerate(wfam.UN.items()):
            if (full or (i + n + k) % 7 == 0) and not (unit and m in ('label', 'act')) and (cut or m != 'slice'):
                yield f(x)
        for i, (m, f) in enumerate(wfam.BI.items()):
            if (full or (i + n + k) % 7 == 0) and m != 'alt':
                if not (unit and m == 'seqact') and (n + i) % 2:
                    yield f(x, 'c0()')
                elif m != 'seqact':
                    yield f('u0()', x)
        yield '(%s / %s)' % (x, x)


def clean(decl, ty, glt, traits, full, k):
    """rules that the analyses accept"""
    ls = [x for t in (traits[-1:] if full and traits else (None,) + tuple(traits)) for x in LEAVES[t]]
    rs = ['rule t%d() -> Val = %s v:c0() { v }' % (i, wfam.grp(x)) for i, x in enumerate(bodies(ls + (UNIT if full and not traits else UNIT[:2]), full, k, 'cut' in traits))]
    for i, (n, m, v, x) in enumerate((n, m, v, x) for n, x in enumerate([l for l in ls if l not in LEAVES['lit']] + VALUED) for m, v in enumerate(VALUES)):
        if full or (n + m + k) % 5 == 0:
            rs.append('rule v%d() -> Val = %s' % (i, v % x))
    g = grammar.parse(wfam.inner(text(decl, ty, glt, traits, rs))[0])
    s, bad = witness.Static(g), set()
    for r in g.rules:
        b = []
        s.walk(r.expr, r, b)
        if b:
            bad.add(r.name)
    return [r for r in rs if r.split()[1].split('(')[0] not in bad]


def inputs():
    out = []
    for i, (n, decl, ty, glt, _) in enumerate(DECL):
        for j, s in enumerate(SETS):
            out.append(text(decl, ty, glt, s, clean(decl, ty, glt, s, i == 0 and len(s) < 2, i + j)))
    return out


def traced():
    """with the trace feature, positions are printed and nothing else is asked for"""
    return [text(d, ty, glt, s, clean(d, ty, glt, s, False, 3)) for i, (n, d, ty, glt, _) in enumerate(DECL) for s in (SETS[i], SETS[-1 - i % 2])]


MISSING = {
    'elem': ['[_]', "['a']", '[^ Tk::A]', 'v:[x] { let _ = v; Val }', '([_])*', '!([_])', 'up(<[_]>)', '(c0() / [_])', "precedence!{ [_] y:@ { y } -- c0() { Val } }"],
    'lit': ['"a"', '("a")?', '"a" / "b"', '&"a"', 'quiet!{ "a" }', 'c0() ** "a"', 'precedence!{ x:(@) "+" y:@ { x } -- v:c0() { v } }', 'up(<"a">)'],
    'cut': ['$(c0())', '$(u0()*)', '($(c0()))?', 'quiet!{ $(c0()) }', 'v:$(c0()) { let _ = v; Val }', '!$(c0())'],
}


def missing():
    """(program, where the trait is missed)"""
    out = []
    for i, (n, d, ty, glt, _) in enumerate(DECL):
        for t, rs in MISSING.items():
            have = tuple(x for x in ('elem', 'lit', 'cut') if x != t)
            for j, r in enumerate(rs):
                if i == 0 or (i + j) % 4 == 0:
                    out.append(text(d, ty, glt, have, ['rule bad() -> Val = «%s» v:c0() { v }' % wfam.grp(r)]))
    return out


# ---- the public types of the runtime library
APRE = '''
extern crate alloc;
pub use ::core::fmt::{Debug, Display}; pub use ::core::hash::Hash; pub use ::core::panic::{UnwindSafe, RefUnwindSafe};
pub use ::peg::error::{ExpectedSet, ParseError}; pub use ::peg::str::LineCol; pub use ::peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
pub fn free<T: Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + \'static>() {}
pub fn clone<T: Clone>() {} pub fn copy<T: Copy>() {} pub fn eq<T: PartialEq + Eq>() {} pub fn peq<T: PartialEq>() {} pub fn ord<T: PartialOrd + Ord>() {} pub fn pord<T: PartialOrd>() {} pub fn hash<T: Hash>() {}
pub fn debug<T: Debug + ?Sized>() {} pub fn display<T: Display>() {}
#[derive(Clone)] pub struct OClone; #[derive(PartialEq)] pub struct OPeq; #[derive(PartialEq, Eq)] pub struct OEq; #[derive(PartialEq, PartialOrd)] pub struct OPord;
#[derive(Debug)] pub struct ODebug; #[derive(Hash)] pub struct OHash; pub struct None_;
pub struct ODisplay; impl Display for ODisplay { fn fmt(&self, f: &mut ::core::fmt::Formatter<\'_>) -> ::core::fmt::Result { Ok(()) } }
#[derive(Debug)] pub struct DD<\'a>(pub &\'a u8); impl Display for DD<\'_> { fn fmt(&self, f: &mut ::core::fmt::Formatter<\'_>) -> ::core::fmt::Result { Ok(()) } }
'''
API = [
    # errors
    'pub fn f<L>(e: ParseError<L>) -> (L, ExpectedSet) { let ParseError { location, expected } = e; (location, expected) }',
    'pub fn f<L>(location: L, expected: ExpectedSet) -> ParseError<L> { ParseError { location, expected } }',
    'pub fn f<L>(e: &mut ParseError<L>, l: L, o: ParseError<L>) { e.location = l; e.expected = o.expected; }',
    'pub fn f() { clone::<ParseError<OClone>>(); peq::<ParseError<OPeq>>(); eq::<ParseError<OEq>>(); debug::<ParseError<ODebug>>(); display::<ParseError<ODisplay>>(); }',
    'pub fn f() { free::<ParseError<usize>>(); free::<ParseError<LineCol>>(); free::<ParseError<None_>>(); free::<Result<u8, ParseError<LineCol>>>(); }',
    "pub fn f<'a>(e: ParseError<&'a str>) -> ParseError<String0> where String0: From<&'a str> { ParseError { location: e.location.into(), expected: e.expected } } pub type String0 = alloc::string::String;",
    "pub fn f(e: ParseError<LineCol>) -> (usize, usize, usize) { (e.location.line, e.location.column, e.location.offset) }",
    'pub fn f(a: &ParseError<LineCol>, b: &ParseError<LineCol>) -> bool { a == b && a.clone() == b.clone() && a.expected == b.expected && a.location == b.location }',
    'pub fn f(e: &ParseError<LineCol>) -> alloc::string::String { alloc::format!("{} {:?} {} {:?} {}", e, e, e.expected, e.expected, e.location) }',
    # expectations
    "pub fn f(e: &ExpectedSet) -> alloc::vec::Vec<&'static str> { e.tokens().collect() }",
    "pub fn f(e: ExpectedSet) -> Option<&'static str> { let r = e.tokens().next(); drop(e); r }",
    "pub fn f<'a>(e: &'a ExpectedSet) -> impl Iterator<Item = &'static str> + 'a { e.tokens().filter(|t| t.len() > 1) }",
    "pub fn f<'a>(e: &'a ExpectedSet) -> alloc::boxed::Box<dyn Iterator<Item = &'static str> + 'a> { alloc::boxed::Box::new(e.tokens()) }",
    "pub fn f<'a>(a: &'a ExpectedSet, b: &'a ExpectedSet) -> bool { a.tokens().zip(b.tokens()).all(|(x, y)| x == y) }",
    "pub fn f(e: &ParseError<usize>) -> bool { e.expected.tokens().any(|t| t == \"x\") && !e.expected.tokens().all(|t: &'static str| t.is_empty()) }",
    'pub fn f() { clone::<ExpectedSet>(); eq::<ExpectedSet>(); debug::<ExpectedSet>(); display::<ExpectedSet>(); free::<ExpectedSet>(); }',
    "pub fn send<T: Send>(t: T) {} pub fn f(e: &'static ExpectedSet) { send(e.tokens()) }",
    # positions
    'pub fn f() { copy::<LineCol>(); clone::<LineCol>(); eq::<LineCol>(); debug::<LineCol>(); display::<LineCol>(); free::<LineCol>(); }',
    'pub const L: LineCol = LineCol { line: 1, column: 2, offset: 3usize }; pub fn f(LineCol { line, column, offset }: LineCol) -> [usize; 3] { [line, column, offset] }',
    'pub fn f(mut l: LineCol) -> LineCol { l.line += 1; l.column = 1; l.offset -= 1; let m = l; l; m }',
    # results of rules
    'pub fn f<T>(r: RuleResult<T>) -> Option<(usize, T)> { match r { RuleResult::Matched(p, v) => Some((p, v)), RuleResult::Failed => None } }',
    'pub fn f<T>(p: usize, v: T) -> [RuleResult<T>; 2] { [RuleResult::Matched(p, v), RuleResult::Failed] } pub const C: fn(usize, u8) -> RuleResult<u8> = RuleResult::Matched;',
    'pub fn f() { clone::<RuleResult<OClone>>(); peq::<RuleResult<OPeq>>(); eq::<RuleResult<OEq>>(); pord::<RuleResult<OPord>>(); ord::<RuleResult<u8>>(); debug::<RuleResult<ODebug>>(); hash::<RuleResult<OHash>>(); free::<RuleResult<None_>>(); }',
    'pub fn f(a: RuleResult<u8>) -> bool { a < RuleResult::Failed && a == RuleResult::Matched(1, 2) }',
    'pub const M: RuleResult<u8> = RuleResult::Matched(1, 2); pub static S: RuleResult<&str> = RuleResult::Failed;',
    # the input traits of the built-in inputs
    "pub fn is<'i, T: Copy + 'i>() where [T]: ParseElem<'i, Element = T> + ParseSlice<'i, Slice = &'i [T]> + Parse<PositionRepr = usize> {} pub fn f<'i>() { is::<char>(); is::<&'i str>(); is::<(u8, bool)>(); }",
    "pub fn is<I: ?Sized + for<'i> ParseElem<'i, Element = char> + for<'i> ParseSlice<'i, Slice = &'i str> + ParseLiteral + Parse<PositionRepr = LineCol>>() {} pub fn f() { is::<str>() }".replace("pub fn is<I: ?Sized + for<'i> ParseElem<'i, Element = char> + for<'i> ParseSlice<'i, Slice = &'i str>", "pub fn is2<I: ?Sized>() where for<'i> I: ParseSlice<'i, Slice = &'i str> {} pub fn is<I: ?Sized + for<'i> ParseElem<'i, Element = char>").replace('is::<str>()', 'is::<str>(); is2::<str>()'),
    "pub fn is<I: ?Sized + ParseLiteral>() {} pub fn f() { is::<[u8]>(); is::<str>() }",
    "pub fn f<T>(s: &[T]) -> (usize, bool, usize) { (Parse::start(s), s.is_eof(0), s.position_repr(0)) } pub fn g(s: &[None_]) -> usize { f(s).0 }",
    "pub fn f<I: Parse + ?Sized>(i: &I) -> I::PositionRepr { let s: usize = i.start(); let e: bool = i.is_eof(s); i.position_repr(s) }",
    "pub fn f<'i, I: ParseElem<'i> + ?Sized>(i: &'i I) -> RuleResult<I::Element> { let r: RuleResult<I::Element> = i.parse_elem(0); if let RuleResult::Matched(_, e) = r { let x = e; let y = e; } r_(i) } fn r_<'i, I: ParseElem<'i> + ?Sized>(i: &'i I) -> RuleResult<I::Element> { i.parse_elem(1usize) }",
    "pub fn f<'i, I: ParseSlice<'i> + ?Sized>(i: &'i I) -> I::Slice { i.parse_slice(0, 1) } pub fn h(s: &str) -> &str { f(s) } pub fn k<T>(s: &[T]) -> &[T] { f(s) }",
    "pub fn f<I: ParseLiteral + ?Sized>(i: &I, l: &str) -> RuleResult<()> { let s = alloc::string::String::from(l); i.parse_string_literal(0, &s) }",
    # what a parser returns, for inputs of all kinds
    '::peg::parser!{ pub grammar g() for str { pub rule r() -> u8 = "a" { 1 } } } pub fn f(s: &str) -> Result<u8, ParseError<<str as Parse>::PositionRepr>> { let v = g::r(s)?; Ok(v) } pub fn h(s: alloc::string::String) -> Result<u8, ParseError<LineCol>> { g::r(&s) }',
    '::peg::parser!{ pub grammar g() for [u8] { pub rule r() -> u8 = "a" { 1 } } } pub const F: fn(&[u8]) -> Result<u8, ParseError<usize>> = g::r; pub fn h(s: alloc::vec::Vec<u8>) -> Result<u8, ParseError<usize>> { let _ = g::r(b"abc"); g::r(&s) }',
    '::peg::parser!{ pub grammar g() for [Tk2] { pub rule r() -> u8 = [Tk2] { 1 } } } #[derive(Clone, Copy)] pub struct Tk2; pub const F: fn(&[Tk2]) -> Result<u8, ParseError<usize>> = g::r; pub fn h() { let _ = g::r(&[Tk2, Tk2]); }',
    "pub struct My; pub struct At<'a>(pub &'a str); impl Display for At<'_> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { Ok(()) } } impl Parse for My { type PositionRepr = At<'static>; fn start(&self) -> usize { 0 } fn is_eof(&self, p: usize) -> bool { true } "
    "fn position_repr(&self, p: usize) -> At<'static> { At(\"\") } } ::peg::parser!{ pub grammar g() for My { pub rule r() -> u8 = { 1 } } } pub const F: fn(&My) -> Result<u8, ParseError<At<'static>>> = g::r; pub fn f() { free::<ParseError<At<'static>>>(); }",
]
# where the standard library, or the unstable feature, is there
APISTD = [
    "pub fn f() { err::<ParseError<LineCol>>(); err::<ParseError<usize>>(); } pub fn err<T: ::core::error::Error + Send + Sync + 'static>() {}",
    "pub fn f<'a, L: Debug + Display>() { err::<ParseError<L>>(); err::<ParseError<DD<'a>>>(); } pub fn err<T: ::core::error::Error>() {}",
    "::peg::parser!{ pub grammar g() for str { pub rule r() -> u8 = \"a\" { 1 } } } pub fn f(s: &str) -> Result<u8, alloc::boxed::Box<dyn ::core::error::Error + Send + Sync>> { Ok(g::r(s)?) } pub fn h(s: &str) -> Result<u8, alloc::boxed::Box<dyn ::core::error::Error>> { let v = g::r(s)?; Ok(v) }",
    "pub fn f(e: &ParseError<LineCol>) -> bool { let d: &dyn ::core::error::Error = e; d.source().is_none() && d.downcast_ref0() } pub trait X { fn downcast_ref0(&self) -> bool { true } } impl<'a> X for dyn ::core::error::Error + 'a {}",
    "pub fn f<'a>(e: &'a (dyn ::core::error::Error + 'static)) -> Option<&'a ParseError<LineCol>> { e.downcast_ref() }",
]
# what stays hidden
APIBAD = [
    ['pub fn f() -> ExpectedSet { ExpectedSet { «expected»: Default::default() } }'],
    ['pub fn f(e: &ExpectedSet) -> usize { e.«expected».len() }', 'pub fn f(e: &mut ParseError<u8>) { e.expected.«expected».clear() }'],
    ["pub fn f(e: ExpectedSet) -> impl Iterator<Item = &'static str> { «e.tokens()» }"],
]
