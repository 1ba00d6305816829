"""Grammars in every documented spelling: how operators, labels, markers and alternatives bind without parentheses, and every
optional part of rule and grammar headers."""
import itertools
from . import corpus, grammar, witness

PREL = '''
pub fn any<A, B>(a: A) -> B { loop {} }
pub trait Tr { type Out; fn tr(&self) -> T; }
impl Tr for T { type Out = U; fn tr(&self) -> T { loop {} } }
pub trait Tr2<A> { type Out2; }
impl<A> Tr2<A> for T { type Out2 = A; }
pub struct Wrap<'a, A: ?Sized, const N: usize>(pub &'a A);
pub struct Arr<const N: usize>(pub u8);
pub mod deep { pub mod ast { pub use super::super::{T as Leaf, U as Twig}; pub fn leaf() -> Leaf { loop {} } pub fn twig() -> Twig { loop {} } } pub use self::ast::Leaf; }
#[derive(Clone, Copy)] pub struct Lt<'a>(pub &'a str);
pub struct GIn<'a, A>(pub &'a A);
impl<'a, A> ::peg::Parse for GIn<'a, A> {
    type PositionRepr = usize;
    fn start<'input>(&'input self) -> usize { loop {} }
    fn is_eof<'input>(&'input self, p: usize) -> bool { loop {} }
    fn position_repr<'input>(&'input self, p: usize) -> usize { loop {} }
}
impl<'input, 'a: 'input, A> ::peg::ParseElem<'input> for GIn<'a, A> {
    type Element = Tk;
    fn parse_elem(&'input self, pos: usize) -> ::peg::RuleResult<Tk> { loop {} }
}
'''

BASE = ('  rule l<X>(x: rule<X>) -> Vec<X> = x()*\n  rule _ = u()\n  rule __() = quiet!{ "q" }\n  rule ___ -> T = v()\n'
        '  rule precedence() -> T = v()\n  rule position() = u()\n  rule quiet() -> T = v()\n  rule expected(n: usize) -> T = z(n)\n')

PRIMS = [('"ab"', '()'), ("['a'..='z']", 'char'), ("[^ 'x' | 'y']", 'char'), ('[_]', 'char'), ('v()', 'T'), ('u()', None), ('w(<v()>)', 'T'), ('z(num())', 'T'),
         ('l::<T>(<v()>)', 'Vec<T>'), ('_', None), ('__', None), ('___', 'T'), ('(v())', 'T'), ('(u() v())', '()'), ('(v() / z(1))', 'T'), ('(x:v() u() { one(x) })', 'T'), ('position!()', 'usize'),
         ('quiet!{ v() / z(1) }', 'T'), ('expected!("thing")', 'T'), ('#{|i, p| custom(i, p)}', 'T'), ('precedence!{ x:(@) "+" y:@ { two(x, y) } -- n:v() { n } }', 'T'),
         ('precedence()', 'T'), ('position()', None), ('quiet()', 'T'), ('expected(1)', 'T')]
SUFF = ['', '?', '*', '+', '*<3>', '*<2,>', '*<,2>', '*<1,3>', '*<{num()}>', '*<{num()},>', '*<,{num()}>', '*<{num()},2>', '** ', '++ ', '**<3> ', '**<2,> ', '**<,2> ', '**<1,3> ', '**<{num()},{num()}> ']
PREF = ['', '$', '&', '!']


class Syn(corpus.G):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        if self.inp == 'str':
            self.extra = BASE
        self.pre = 'grammar g() for str {\n' + self.extra + corpus.base_rules('str')

    def rule(self, body, ty=None):
        """only loops that end"""
        g = grammar.parse(self.pre + 'rule r()%s = %s\n}' % (' -> ' + ty if ty else '', body))
        if not witness.Static(g).loops():
            super().rule(body, ty)


def suffixed(p, ty, pre, suf, sep):
    t = {'': ty, '$': "&'input str", '&': ty, '!': '()'}[pre]
    if suf:
        t = t and ('Option<%s>' if suf == '?' else 'Vec<%s>') % t
    return pre + p + suf + (sep if suf.endswith(' ') else ''), t


def contexts(g, x, t, which):
    vag = 'expected!' in x
    two = 'two%s(x, y)' % ('::<%s, _>' % t if vag else '')
    for w in which:
        if w == 0 and t:
            g.rule(x, t)
        elif w == 1:
            g.rule(x)
        elif w == 2 and t:
            g.rule('x:%s y:v() { %s }' % (x, two), 'T')
        elif w == 3:
            g.rule('x:v() %s "k" { one(x) }' % x, 'T')
        elif w == 4 and t:
            g.rule('y:v() x:%s { %s }' % (x, two), 'T')
        elif w == 5 and t:
            g.rule('x:%s {? %s } / y:v() %s { one(y) } / %s { mk() } / v()' % (x, 'cond' + ('::<%s>' % t if vag else '') + '(x)', x, x), 'T')
        elif w == 6:
            g.rule('"k" %s / %s "j" / u() %s u() / u()' % (x, x, x))
        elif w == 7:
            g.rule('"k" ( %s ) / ( ( %s "j" ) / ( u() %s ) )' % (x, x, x))


def expressions(thorough):
    """prefix, primary, suffix, separator, label, without parentheses"""
    gs = []
    g = Syn('syn_expr')
    k = 0
    for i, (p, ty) in enumerate(PRIMS):
        for j, pre in enumerate(PREF):
            for m, suf in enumerate(SUFF):
                if not thorough and pre and suf and (i + m) % 3:
                    continue
                sep = PRIMS[(i + 3 * m + 7 * j) % len(PRIMS)][0]
                k += 1
                x, t = suffixed(p, ty, pre, suf, sep)
                contexts(g, x, t, range(8) if thorough else ((k + i) % 8, (k + i + 3) % 8) if not pre and not suf else ((k + i) % 8,))
                if thorough and len(g.rules) > 1500:
                    gs.append(g)
                    g = Syn('syn_expr%d' % len(gs))
    gs.append(g)
    # neighbours
    g = Syn('syn_adj')
    left = ['v()', '"ab"', "['a']", 'v()?', 'v()*', 'v()+', 'v()*<2>', 'v()*<1,{num()}>', 'v() ** ","', 'v() ++ u()', 'v() **<,2> _', '$u()', '&v()', '!u()', '_', 'position!()', '#{|i, p| custom(i, p)}', '(u())', 'w(<v()>)', 'quiet!{ v() }', '[^\'a\']+', '_?']
    right = ['v()', '"k"', "['b']", '$v()', '&v()', '!v()', '(v() u())', '_', '__*', 'position!()', 'quiet!{ u() }', 'expected!("t")', '#{|i, p| custom(i, p)}', 'x:v()', 'x:$u()', 'x:&v()', 'x:___', 'l::<T>(<v()>)', 'x:l::<T>(<v()>)+', 'x:(v() / v())', "x:['a' | 'b']*", 'quiet()', 'precedence()']
    for i, a in enumerate(left):
        for j, b in enumerate(right):
            if not thorough and (i + j) % 2:
                continue
            lab = b.startswith('x:')
            g.rule('%s %s { %s }' % (a, b, 'one(x)' if lab else 'mk()'), 'T')
            if not lab:
                g.rule('y:v() / %s %s / u() %s' % (a, b, b))
                if a not in ('_', '_?', '(u())'):
                    g.rule('y:%s %s z:v() {? cond2(y, z) } / v()' % (a, b), 'T')
    # alternatives, sequences, code
    for r in ('u() / u() u() / u() u() u()', 'u() / (u() / u()) u() / u()', '(u() / u()) (u() / u())', 'u() (u() / u() u()) u()', '/ u()', 'u() /', '/', 'u() / / u()', '', '()', '(((u())))',
              '(() u())', '&(u() / u()) u()', '!(u() u()) u()', '(u() u())* u()', '(u() / "k")+ u() / "l"', '"a" "b"? / "c"* "d"', '&"a" !"b" "c"', '$("a" "b")', '$("a" / "b")* "c"'):
        g.rule(r)
    for r in ('v() / v() / v()', 'x:v() { x } / v() / y:v() { y }', 'x:v() {? cond(x) } / x:v() { x }', 'x:v() {?cond(x)}', '{ mk() }', '{? cond(()) } / v()', '(v())', '((v()) / (v()))', 'x:(v()) { x }',
              'x:(a:v() b:v() { two(a, b) } / v()) y:(c:v() { c })? { two(x, y) }', '"a" { mk() } / "b" { mk() } / { mk() }', 'x:v() y:v() { two(x, y) } / z:v() u() { z }', 'w(<x:v() { x }>)',
              'w(<v() / v()>)', 'w(<w(<v()>)>)', 'w(<x:v() y:v() { two(x, y) } / v() / w(<v() / v()>)>)', 'z({ 1 })', 'z(num() + (2, 3).0)', 'z([1, 2].len())', 'z(if true { 1 } else { 2 })', 'z(numof::<u8>(3))',
              'x:v() { let c = |a: T, b: T| two(a, b); match 1 { 1 => { x } _ => mk() } }', 'x:v() { /* } */ one("}") }', 'x:v() { one(\'}\') } // }'):
        g.rule(r, 'T')
    for r in ('"\\n" "\\"" "\\\\" "\\u{1F600}" "\\x41"', 'r"a\\" r#"b"c"# r##"d"#e"##', '"é" "日本"', '"/" "//" "/*" "*/"', '"{" "}" "(" ")"'):
        g.rule(r)
    for p in ("c if c.is_ascii_digit()", "^ c if c.is_ascii_digit()", "'a'..='z' | 'A'..='Z'", "^' '", "^'a'|'b'", "_", "c @ 'a'..='z'", "'\\''", "'\\u{7f}'..", "..='b'", "'[' | ']'", "| 'a' | 'b'"):
        g.rule('x:[%s]+ y:[%s] { two(x, y) }' % (p, p), 'T')
        g.rule('![%s] [%s]? &[%s] / [%s]* "k"' % (p, p, p, p))
    gs.append(g)
    # layout
    g = Syn('syn_space')
    for r in ('v ( )  * < 1 , 2 >', 'v()*<1,2>', 'v\n(\n)\n*\n<\n{\nnum()\n}\n,\n>', 'v()\n  **\n  ","', 'v() ** /* sep */ ","', 'v()++","', 'v() ++ ","', 'v()**<2,3>","', 'v() ** < 2 , 3 > ","', 'v()+// c\n', 'v()*<{num()},{num()}>'):
        g.rule(r, 'Vec<T>')
    for r in ('x : v ( ) { one ( x ) }', 'x:v(){one(x)}', 'x\n:\nv()\n{\none(x)\n}', 'x:/* a */v() // b\n /* c */ { one(x) }', 'x:v()y:v(){two(x,y)}/z:v(){z}', 'w(<v()>)', 'w ( < v ( ) > )', 'w(<v()/v()>)', 'x:& v() { x }',
              'x:$ u() { one(x) }', 'x:quiet ! { v ( ) } { x }', 'x:position ! ( ) { one(x) }', 'precedence ! { x : ( @ ) "+" y : @ { two(x, y) } -- n : v ( ) { n } }', 'precedence!{x:(@)"+" y:@{two(x,y)}x:@"-" y:(@){two(x,y)}--x:@"!"{x}--"-" x:@{x}--n:v(){n}}',
              'l :: < T > ( < v ( ) > ) { mk() }'):
        g.rule(r, 'T')
    gs.append(g)
    return gs


def headers():
    """optional parts of rules"""
    gs = []
    g = Syn('syn_head')
    n = 0

    def add(doc='', cache='', eof='', vis='', params='', gen='', ret='', where='', semi='', body=None):
        nonlocal n
        n += 1
        g.raw('%s%s%s%srule n%d%s(%s)%s%s = %s%s' % (doc, cache, eof, vis, n, gen, params, ret, where, body or ('x:v() { any(x) }' if ret else 'v() u()'), semi))
        return n
    DOC = ['', '/// One line.\n', '/// Two\n  ///lines of it.\n', '#[doc = "spelled out"] ', '///\n']
    CACHE = ['', '#[cache] ', '#[cache_left_rec] ', '# [ cache ]\n']
    EOF = ['', '#[no_eof] ', '#[no_eof]\n']
    VIS = ['', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(self) ', 'pub(in crate) ', 'pub\n(crate) ']
    RET = ['', ' -> T', ' ->Vec<T>', ' -> ()', " -> &'input str"]
    SEMI = ['', ';', ' ;', ' // tail', '; // tail']
    k = 0
    for d, c, e, v in itertools.product(DOC, CACHE, EOF, VIS):
        k += 1
        if k % 2 and d and c and e or e and not v:
            continue
        add(d, c, e, v, ret=RET[(k + k // 7) % 5], semi=SEMI[(k + k // 5) % 5])
    PARAMS = [('x0: usize', '1'), ('x0: T,', None), ('a: rule<T>', '<v()>'), ('a: rule<T>,', '<v() / v()>'), ('a: rule<T>, b: rule<&\'input str>', '<v()>, <$u()>'), ('x0: usize, a: rule<Vec<T>>', 'num(), <v()*>'),
              ('a: rule<()>, x0: &T', '<"k">, &mk()'), ('x0: (usize, T), x1: [u8; 2],', '(1, mk()), [1, 2]'), ('a: rule<Vec<Vec<T>>>, x0: usize, b: rule<(T, T)>', '<(v()*<2>) ** ",">, 2, <x:v() y:v() { (x, y) }>')]
    for p, a in PARAMS:
        for v in ('', 'pub '):
            if v and 'rule<' in p or v and 'T' in p:
                continue
            m = add(vis=v, params=p, ret=' -> T')
            if a and not v:
                g.raw('rule m%d() -> T = n%d(%s)' % (m, m, a))
                g.raw('rule o%d() = !n%d(%s) x:n%d(%s)? { }' % (m, m, a, m, a))
    GEN = ["<'x>", "<'x,>", "<'x, 'y>", "<'x, 'y: 'x>", "<'x, 'y: 'x, 'z: 'x + 'y>", '<X>', '<X,>', '<X: Tr>', '<X: Tr + Clone,>', "<X: Clone + 'static>", '<X: ?Sized>', "<'x, X: ?Sized + 'x>", '<X: (Clone)>', '<X, Y>', '<X, Y: Into<X>>',
           '<X: Into<Vec<Vec<T>>>>', "<X: for<'x> Fn(&'x T) -> &'x U>", '<X: Fn(T, U)>', '<X: FnOnce() -> T>', '<X: ::std::clone::Clone>', '<X: super::Tr>', '<X: Tr2<u8> + Tr2<T>>', "<'x, X: Tr2<&'x T>>", '<X: (?Sized)>', "<X: (for<'x> Fn(&'x T))>"]
    WHERE = ['', ' where', ' where u8: Copy', ' where u8: Copy,', " where 'input: 'input", " where 'static: 'input + 'input,", ' where Vec<u8>: Clone, u8: Copy + Clone', " where for<'w> &'w T: Copy", ' where (u8, u8): Clone', ' where [u8; 2]: Clone', ' where <T as Tr>::Out: Clone',
             ' where T: Tr2<u8>', " where fn(u8) -> u8: for<'w> Fn(u8) -> u8", " where T: 'static", ' where T: ?Sized' if False else ' where T: (Clone)']
    k = 0
    for gen in GEN:
        for v in ('', 'pub '):
            for r in ('', ' -> T'):
                k += 1
                add(gen=gen, vis=v, ret=r, where=WHERE[k % len(WHERE)], params=', '.join("p%s: &%s" % (c, c) for c in 'XY' if c in gen))
    for w in WHERE:
        add(vis='pub ', ret=' -> T', where=w)
        add(ret=' -> Vec<T>', where=w)
    for r in ['_ = u()', '__ = u()', '___ = u()', '_() = u()', '__() = u();', '_ -> T = v()', '___() -> Vec<T> = v()*', '_ = quiet!{ [\' \']* }', '__ -> () = {}']:
        h = corpus.G('syn_us%d' % len(gs))
        nm = r.split()[0].replace('()', '')
        h.raw('rule ' + r)
        h.raw('#[cache] rule r1() = v() %s u() %s' % (nm, nm))
        ret = '->' in r
        h.raw('rule r2() -> T = x:v() %s %s%s? { two(x, %s) }' % (nm, 'y:' if ret else '', nm, 'y' if ret else '1'))
        h.raw('rule r3() -> T = x:$%s !%s &%s w(<%s { mk() }>) { one(x) }' % (nm, nm, nm, nm))
        h.raw('rule r4() -> Vec<T> = v() ** %s / v() **<2,3> %s' % (nm, nm))
        h.raw('pub rule r5() -> T = quiet!{ %s } v:v() "k" %s "j" { v }' % (nm, nm))
        if '[' not in r and '{}' not in r and 'v()*' not in r:
            h.raw('rule r6() -> T = %s%s* %s%s+ { %s }' % ('x:' if ret else '', nm, 'y:' if ret else '', nm, 'two(x, y)' if ret else 'mk()'))
        gs.append(h)
    gs.append(g)
    return gs


TYPES = ['usize', 'T', '(T)', '(T,)', '(T, U)', '(T, U,)', '((T, U), (T,))', '()', 'Vec<T>', 'Vec<Vec<T>>', 'Vec<Vec<Vec<T>>>', 'Vec::<T>', '::std::vec::Vec<T>', 'std::collections::HashMap<u8, Vec<T>>', 'Vec<T,>', 'self::Input2', 'super::T', 'crate::T', 'deep::ast::Leaf', 'super::deep::Leaf',
         '[T; 2]', '[[T; 2]; 3]', "&'input str", "&'input [T]", "&'static mut T", "&'input mut [T]", "&'input &'input T", "Option<&'input mut Vec<T>>", 'Box<dyn Tr<Out = U>>' if False else 'Box<dyn Tr2<T>>' if False else 'Box<dyn ::std::fmt::Debug>',
         "Box<dyn ::std::fmt::Debug + Send>", "Box<dyn ::std::fmt::Debug + 'static>", "Box<dyn ::std::fmt::Debug + Send + Sync + 'input>", 'Box<dyn Fn()>', 'Box<dyn Fn(T) -> U>', 'Box<dyn Fn(T, U) -> Vec<Vec<T>>>', "Box<dyn for<'x> Fn(&'x T) -> &'x U>", 'Box<dyn (Fn(T) -> U)>',
         "&'static dyn Fn(T) -> U", 'fn()', 'fn(T) -> U', 'fn(T, U,) -> (T, U)', 'fn(T) -> fn(U) -> T', 'Option<fn(T) -> Vec<U>>', '<T as Tr>::Out', '<T as Tr2<Vec<U>>>::Out2', '<T as super::Tr>::Out', 'Option<<T as Tr>::Out>', '<Vec<T> as IntoIterator>::Item', "Wrap<'input, T, 3>", "Wrap<'static, Vec<T>, { 1 + 2 }>",
         "Wrap<'static, [T], 3>", 'Arr<3>', 'Arr<{ 3 }>', "Lt<'input>", "::std::borrow::Cow<'input, str>", 'Result<T, String>', 'Option<Box<dyn FnMut(&T) -> Option<&T>>>']


def types():
    """every form of type in every place for one"""
    g = Syn('syn_type')
    g.extra = '  use super::T as Input2;\n' + g.extra
    for i, t in enumerate(TYPES):
        g.raw('%srule t%d() -> %s = x:v() { any(x) }' % ('pub ' if i % 2 else '', i, t))
        g.raw('rule p%d(x: %s, y: usize) = #{|i, p| { one(&x); custom(i, p) }} u()' % (i, t))
        g.raw('rule q%d(f: rule<%s>, g: rule<Vec<%s>>) -> T = x:f() y:g() { two(x, y) }' % (i, t, t))
        g.raw('rule c%d() -> T = p%d(any(1), 2) x:q%d(<t%d()>, <t%d()*<2>>) y:l::<%s>(<t%d()>) { two(x, y) }' % ((i, i, i, i, i, t, i)))
        if "'" not in t or "'static" in t:
            g.raw('rule b%d<X: Into<%s>>(x: X) where Vec<%s>: Into<Vec<%s>> = #{|i, p| { let y: %s = any(1); custom(i, p) }} u()' % (i, t, t, t, t))
    out = [g]
    for i, t in enumerate(TYPES):
        if "'input" in t or 'self::' in t:
            continue
        h = corpus.G('syn_arg%d' % i, args='%s: &%s%s' % ('ab'[i % 2], t if t[0] != '&' or True else t, ',' if i % 3 else ''))
        if "dyn" in t and t.startswith('&') or '+' in t:
            h.args = h.args
        h.raw('pub rule r(c: u8) -> T = x:v() { three(x, %s, c) }' % 'ab'[i % 2])
        out.append(h)
    # input types
    for i, (inp, lt) in enumerate((('str', ''), ('[u8]', ''), ('[T]', ''), ('[(T, U)]', ''), ('[Vec<Tk>]', ''), ('[&\'a T]', "<'a>"), ("[Lt<'a>]", "<'a>"), ("[Lt<'a>]", "<'a,>"), ("[(Lt<'a>, Lt<'b>)]", "<'a, 'b>"), ('In', ''), ('super::In', ''), ('GIn<\'a, T>', "<'a>"),
                                   ("super::GIn<'a, Vec<Vec<T>>>", "<'a>"), ('[fn(u8) -> u8]', ''), ('[[u8; 2]]', ''), ("GIn<'static, T>", ''))):
        ref = inp.startswith('[') and inp not in ('[u8]',)
        h = corpus.G('syn_in%d' % i, inp, lt=lt, base=False)
        if inp.startswith('[') and inp != '[u8]':
            # elements that can be copied
            if inp not in ("[Lt<'a>]", "[(Lt<'a>, Lt<'b>)]", "[&'a T]", '[fn(u8) -> u8]', '[[u8; 2]]'):
                h.raw('rule v() -> T = #{|i, p| any((i, p))}')
            else:
                h.raw('rule v() -> T = x:[_] { one(x) }')
        elif inp == 'str' or inp == '[u8]' or 'In' in inp:
            h.raw('rule v() -> T = x:[_] { one(x) }')
        h.raw('pub rule p() -> Vec<T> = v()* ![_]' if False else 'pub rule p() -> Vec<T> = v()*')
        h.raw('#[no_eof] pub(crate) rule q() -> T = x:position!() v() y:position!() { two(x, y) }')
        out.append(h)
    return out


def grammar_headers():
    """(grammar text, prefix allowed at the crate root)"""
    out = []
    k = 0
    DOC = ['', '/// A grammar.\n', '/// A grammar\n/// of two lines.\n', '#[doc = "spelled out"] ']
    for doc, vis, args, use in itertools.product(DOC, ['', 'pub ', 'pub(crate) ', 'pub(self) ', 'pub(in crate) '], ['', 'a: usize', 'a: &T,', 'a: usize, b: &Vec<T>'],
                                                 ['', 'use super::deep::ast::leaf;', 'use super::deep::*;\n use super::deep::ast::{leaf as lf, twig,};', 'use crate::deep::ast::leaf as mkleaf;\nuse super::T as TT;']):
        k += 1
        if k % 3 == 0 and (args and use and doc):
            continue
        f = {'use super::deep::ast::leaf;': 'leaf()', 'use super::deep::*;\n use super::deep::ast::{leaf as lf, twig,};': 'two(lf(), twig())', 'use crate::deep::ast::leaf as mkleaf;\nuse super::T as TT;': 'mkleaf()'}.get(use, 'mk()')
        names = [a.split(':')[0] for a in args.split(', ') if a]
        last = 'rule q() = "k"' + (';' if k % 2 else '')
        if k % 4 == 1 and use:
            body = 'pub rule r() -> T = "a" { two(%s, (%s)) }\n%s\n%s' % (f, ''.join(n + ', ' for n in names), use, last)
        else:
            body = '%s\npub rule r() -> T = "a" { two(%s, (%s)) }\n%s' % (use, f, ''.join(n + ', ' for n in names), last)
        lt = ''
        out.append('%s%sgrammar gh%d%s(%s) for str {\n%s\n}' % (doc, vis, k, lt, args, body))
    out.append('grammar gempty() for str {}')
    out.append('grammar guse() for str { use super::T; }')
    out.append('grammar\ngfmt\n(\n)\nfor\nstr\n{\nrule\na\n(\n)\n=\n"x"\n}')
    out.append('grammar gline() for str { rule a() = "x" rule b() = "y" / "z" rule c() -> T = x:v() { one(x) } rule v() -> T = [_] { mk() } pub rule d() = a() b(); rule e() = c()* rule f(g: rule<()>) = g()? #[cache] rule h() = a() pub(crate) rule i() = _ rule _ = "a"+ rule j() = "k" {} }')
    out.append('grammar gcom() for str { // first\n /* second */ rule a() = "x" // third\n / "y" /* fourth */ ; /* /* nested */ */ rule b() = a() }')
    return out


# the examples of the documentation, spelled out here
DOCUMENTED = ['''grammar list_parser() for str {
    rule number() -> u32 = n:$(['0'..='9']+) {? n.parse().or(Err("u32")) }
    pub rule list() -> Vec<u32> = "[" l:(number() ** ",") "]" { l }
}''', '''grammar doc1() for str {
  rule number() -> i64 = "..." { 0 }
  pub rule arithmetic() -> i64 = precedence!{
    x:(@) "+" y:@ { any((x, y)) }
    x:(@) "-" y:@ { any((x, y)) }
    --
    x:(@) "*" y:@ { any((x, y)) }
    x:(@) "/" y:@ { any((x, y)) }
    --
    x:@ "^" y:(@) { any((x, y)) }
    --
    n:number() { n }
    "(" e:arithmetic() ")" { e }
  }
}''', '''grammar doc2() for str {
  rule num_radix(radix: u32) -> u32
    = n:$(['0'..='9']+) {? u32::from_str_radix(n, radix).or(Err("number")) }
  rule list<T>(x: rule<T>) -> Vec<T> = "[" v:(x() ** ",") ","? "]" {v}
  pub rule octal_list() -> Vec<u32> = list(<num_radix(8)>)
}''', '''grammar doc3() for str {
  rule whitespace() = quiet!{[' ' | '\\n' | '\\t']+}
  rule identifier()
    = quiet!{[ 'a'..='z' | 'A'..='Z']['a'..='z' | 'A'..='Z' | '0'..='9' ]*}
    / expected!("identifier")
  rule e1() = ![_]
  rule e2() -> char = c:['+'|'-'] { c }
  rule e3() -> char = [^' ']
  rule e4() -> char = [c if c.is_ascii_digit()]
  rule _() = quiet!{[' ']*}
  rule e5() -> Vec<char> = _ "(" _ l:(['a'..='z']**<1,3> (_ "," _)) _ ")" { l }
  rule e6() = e4() "x" / e4() "y" / e4() "z"
  rule e7() = e4() ("x" / "y" / "z")
}''', '''grammar doc4() for [Tk] {
  rule t() -> u8 = [Tk::B(i)] { i }
  rule u() -> Tk = c:[Tk::A | Tk::D] { c }
  pub rule all() -> Vec<u8> = t()*
}''']


def doc_text(parts):
    out = []
    for p in parts:
        p = p.strip() if p.lstrip().startswith('doc') and '=' in p[:8] else p
        out.append(p.split('"')[1] if p.startswith('doc') else p)
    return '\n'.join(out)
