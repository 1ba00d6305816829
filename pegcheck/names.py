"""Grammars in which the user's names are the very names the translator writes itself.

A text holds user variables as ‹name›.  The subject gets the name as it is, the reference a fresh one
(renaming a bound variable changes nothing), so any capture in either direction is a difference."""
import re
from . import harvest, run, corpus, build

KW = set('as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where '
         'while async await abstract become box do final macro override priv typeof unsized virtual yield try gen union'.split())
PRELUDE = set('Some None Ok Err'.split())            # reserved: the standard prelude's own values
EXT = set('T U Tk In mk one two three four five nothing cond cond2 guard num numof custom custom1 binop Dflt dflt'.split())
ID = r'[A-Za-z_]\w*'


def subject(t):
    return re.sub('‹(%s)›' % ID, r'\1', t)


def fresh(t):
    return re.sub('‹(%s)›' % ID, lambda m: 'f_' + m.group(1), t)


class NameSuite(run.Suite):
    def __init__(self, name, texts, ext_extra='', prelude=''):
        super().__init__(name, [subject(t) for t in texts], ext=run.load_ext() + ext_extra, prelude=prelude)
        self.bgrams = [run.grammar.parse(fresh(t)) for t in texts]

    def sources(self):
        a, _ = super().sources()
        b = '\n'.join(run.emit.emit(g) for g in self.bgrams)
        # a pattern is reported as the user wrote it
        b = re.sub(r'\br(#+)"\[.*?\]"\1', lambda m: m.group(0).replace('f_', ''), b)
        return a, run.HEAD + self.prelude + '\n' + b


BASE = {'src/lib.rs': """::peg::parser!{ grammar g() for str { rule v() -> u8 = "a" { 1 } #[cache] rule c() -> u8 = v() #[cache_left_rec] rule l() -> u8 = x:l() "a" { x } / v() rule w<T>(x: rule<T>) -> T = x()
pub rule a() -> u8 = precedence!{ s:position!() n:@ e:position!() { n } -- x:(@) "+" y:@ { x } -- "-" x:@ { x } -- x:@ "!" { x } -- n:w(<c() / l()>) ** "," { n[0] } } } }"""}


def harvested(fa):
    """every identifier the translator can write"""
    ids = {s for s in harvest.strings(harvest.facts_of(fa)) if s and re.fullmatch(ID, s) and s not in KW}
    # items of the generated code cannot be hygienic: their names are reserved, as long as they say so by two underscores
    items = set()
    d = harvest.facts_of(fa, 'wit_base')
    for b in d['bodies']:
        if b['kind'] == 'fn':
            items.add(b['name'].split('::')[-1])
    return {i for i in ids if not (i in items and i.startswith('__'))}


def all_of(names):
    """a value that holds every variable"""
    return tup('&‹%s›' % n for n in names)


def tup(xs):
    return '(%s,)' % ', '.join(xs)


def constructs(A):
    """every construct, with code in it that sees A; (text, has a value)"""
    V = '(z:v() { two(z, %s) })' % A
    W = '(u() { nothing(); one(%s) })' % A
    return [
        (V, 1), ('(%s / %s / u() { one(%s) })' % (V, V, A), 1), ('%s?' % V, 1), ('%s*' % V, 1), ('%s+' % V, 1), ('%s ** %s' % (V, W), 1),
        ('%s **<{numof(%s)},{numof(%s)}> %s' % (V, A, A, W), 1), ('v()*<{numof(%s)}>' % A, 1), ('v()*<,{numof(%s)}>' % A, 1), ('&%s' % V, 1), ('!%s' % V, 0), ('quiet!{ %s }' % V, 1), ('$%s' % V, 1),
        ('#{|i, p| { one(%s); custom(i, p) }}' % A, 1), ('#{custom1(%s)}' % A, 1), ('z(numof(%s))' % A, 1), ('w(<%s>)' % V, 1), ('w(<z:w(<%s>) { two(z, %s) }>)' % (V, A), 1),
        ("(z:['a' | 'b'] { two(z, %s) })" % A, 1), ('[z if guard((z, %s))]' % A, 1), ('[^ z if guard((z, %s))]' % A, 1), ('("k" z:$(u()) { two(z, %s) })' % A, 1),
        ('(z:v() {? cond((z, %s)) })' % A, 1), ('(z:position!() { two(z, %s) })' % A, 1), ('(z:"k" { two(z, %s) })' % A, 1),
        ('("k" z:(expected!({ one(%s); "x" }) / %s) { one(z) })' % (A, V), 1),
        ('precedence!{ s:position!() n:@ e:position!() { five(s, n, e, 0, %(A)s) } -- l:(@) o:%(V)s r:@ { five(l, o, r, 0, %(A)s) } -- l:@ "^" %(W)s r:(@) { three(l, r, %(A)s) } -- "-" r:@ { two(r, %(A)s) } '
         'l:@ "!" %(W)s { two(l, %(A)s) } -- n:%(V)s { two(n, %(A)s) } "(" e:v() ")" { two(e, %(A)s) } }' % {'A': A, 'V': V, 'W': W}, 1),
    ]


def chunks(xs, n):
    xs = sorted(xs)
    k = max(1, -(-len(xs) // n))
    n = -(-len(xs) // k)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def variables(names, per=30):
    """labels, parameters, grammar arguments, pattern variables, operands, code of its own"""
    out = []
    ok = {n for n in names if n not in PRELUDE and n not in EXT and n != '_'}
    for ci, ch in enumerate(chunks(ok, per)):
        A = all_of(ch)
        cs = constructs(A)
        g = corpus.G('lab%d' % ci)
        lab = ' '.join('‹%s›:v()' % n for n in ch)
        for c, val in cs:
            g.raw('rule r%d() -> T = %s zz:%s { two(%s, %s) }' % (g_n(g), lab, c if val else '(%s { mk() })' % c, 'zz', A))
            g.raw('rule r%d() = %s %s "k"' % (g_n(g), lab, c))
        # other things that are labelled
        kinds = ["['a'..='z']", '$(u())', 'position!()', 'v()', 'quiet!{ v() }', 'w(<v()>)', '#{custom}', '(x:v() { one(x) })', '"k"', '!u()', '&v()']
        for k in range(len(kinds)):
            g.raw('rule r%d() -> T = %s { one(%s) }' % (g_n(g), ' '.join('‹%s›:%s' % (n, kinds[(i + k) % len(kinds)]) for i, n in enumerate(ch)), A))
        kinds = ['v()?', 'v()*', '(v() / z(1))', 'v() ++ ","']
        for k, part in enumerate(chunks(ch, 3)):
            for r in range(len(kinds)):
                g.raw('rule r%d() -> T = %s { one(%s) }' % (g_n(g), ' '.join('‹%s›:%s' % (n, kinds[(i + r) % len(kinds)]) for i, n in enumerate(part)), all_of(part)))
        # pattern variables
        g.raw('rule r%d() -> T = %s { one(%s) }' % (g_n(g), ' '.join('[‹%s› if guard(‹%s›)]' % (n, n) for n in ch), A))
        g.raw('rule r%d() -> T = %s { one(%s) }' % (g_n(g), ' '.join('zz:[‹%s› @ \'a\'..=\'z\' if guard(‹%s›)]' % (n, n) for n in ch), A))
        g.raw('rule r%d() -> T = %s { mk() }' % (g_n(g), ' '.join('[^ ‹%s› if guard(‹%s›)]' % (n, n) for n in ch)))
        # code of its own
        lets = ' '.join('let ‹%s› = mk();' % n for n in ch)
        for c in ('x:v() { %s two(x, %s) }', 'x:v() {? %s cond2(x, %s) }', '#{|i, p| { %s one(%s); custom(i, p) }}', 'z({ %s numof(%s) })', 'v()*<{{ %s numof(%s) }}>', 'x:v() { (|%s| one(%s))(%s) }'):
            if c.count('%s') == 3:
                t = c % (', '.join('‹%s›: T' % n for n in ch), A, ', '.join('mk()' for _ in ch))
            else:
                t = c % (lets, A)
            g.raw('rule r%d() -> %s = %s' % (g_n(g), 'Vec<T>' if t.startswith('v()*') else 'T', t))
        # nothing but the first and the last is in between
        for n in ch:
            g.raw('rule r%d() -> T = ‹%s›:v() "k" v()? (u() / v()) { one(‹%s›) }' % (g_n(g), n, n))
        out.append(g)
        # parameters
        h = corpus.G('par%d' % ci)
        ps = ', '.join('‹%s›: &T' % n for n in ch)
        for c, val in cs:
            h.raw('rule r%d(%s) -> T = zz:%s { two(zz, %s) }' % (g_n(h), ps, c if val else '(%s { mk() })' % c, A))
        h.raw('pub rule r%d(%s) -> T = v() { one(%s) }' % (g_n(h), ps, A))
        h.raw('rule r%d(%s) -> T = x:r1(%s) y:r%d(%s) { three(x, y, %s) }' % (g_n(h), ps, ', '.join('‹%s›' % n for n in ch), 2, ', '.join('‹%s›' % n for n in ch[::-1]), A))
        for k, part in enumerate(chunks(ch, 8)):
            fs = ', '.join('‹%s›: rule<T>' % n for n in part)
            calls = ['‹%s›()' % n for n in part]
            a, b = calls[0], calls[-1]
            for body in (' '.join('x%d:%s' % (i, c) for i, c in enumerate(calls)) + ' { one(%s) }' % tup('x%d' % i for i in range(len(calls))),
                         'x:(%s) { one(x) }' % ' / '.join(calls), 'x:(%s)* y:%s ** %s z:&%s !%s { three(x, y, z) }' % (a, b, a, b, a), 'x:quiet!{ %s } y:$(%s) z:w(<%s>) { three(x, y, z) }' % (a, b, b),
                         'precedence!{ s:position!() n:@ e:position!() { three(s, n, e) } -- x:(@) %s y:@ { two(x, y) } -- %s x:@ { one(x) } -- x:@ %s { one(x) } -- n:%s { one(n) } }' % (a, b, a, b)):
                h.raw('rule r%d(%s) -> T = %s' % (g_n(h), fs, body))
            h.raw('rule r%d(%s) -> T = x:r%d(%s) { one(x) }' % (g_n(h), fs, len(h.rules), ', '.join('<%s>' % c for c in calls)))
        out.append(h)
        # grammar arguments
        k = corpus.G('arg%d' % ci, args=', '.join('‹%s›: &T' % n for n in ch))
        for c, val in cs:
            k.raw('rule r%d() -> T = zz:%s { two(zz, %s) }' % (g_n(k), c if val else '(%s { mk() })' % c, A))
        k.raw('pub rule r%d(zz: u8) -> T = x:r1() { three(x, zz, %s) }' % (g_n(k), A))
        k.raw('#[cache] pub rule r%d() -> T = x:r1() { two(x, %s) }' % (g_n(k), A))
        k.raw('#[cache_left_rec] pub rule r%d() -> T = x:r%d() "k" { two(x, %s) } / v()' % (g_n(k), g_n(k), A))
        out.append(k)
        # operands
        p = corpus.G('ops%d' % ci)
        for part in chunks(ch, 10):
            m = len(part)
            q = lambda i: '‹%s›' % part[i % m]
            for rot in range(0, m, 2):
                lv = []
                for i in range(rot, rot + 4):
                    a, b, c = q(i), q(i + 1), q(i + 2)
                    lv.append(['%s:(@) "i%d" %s:v() %s:@ { three(%s, %s, %s) }' % (a, i, c, b, a, b, c), '%s:@ "j%d" %s:(@) { two(%s, %s) }' % (a, i, b, a, b),
                               '%s:v() %s:@ { two(%s, %s) }' % (a, b, a, b), '%s:@ %s:v() "k" { two(%s, %s) }' % (a, b, a, b)][i % 4])
                p.raw('rule r%d() -> T = precedence!{ %s:position!() %s:@ %s:position!() { three(%s, %s, %s) } -- %s -- %s:v() %s:$(u()) { two(%s, %s) } }' % (
                    (g_n(p),) + (q(rot), q(rot + 1), q(rot + 2)) * 2 + (' -- '.join(lv), q(rot), q(rot + 1), q(rot), q(rot + 1))))
        out.append(p)
    return [g.text() for g in out]


def g_n(g):
    return len(g.rules) + 1


def rule_names(names):
    """rules, plain and cached, public and not, with these names"""
    out = []
    priv = sorted(n for n in names if n not in ('_',) and not re.fullmatch('_+', n))
    for kind in ('', '#[cache] ', '#[cache_left_rec] ', 'pub ', '#[cache] pub '):
        ns = [n for n in priv if 'pub' not in kind or n not in PRELUDE and n not in EXT]
        own = [n for n in ns if n not in ('v', 'u', 'w', 'z')]
        g = corpus.G('n_' + re.sub(r'\W+', '', kind))
        if 'pub' not in kind:
            own += ['__parse_v', '__parse___parse_v', 'v_cache', 'v_cache_cache', '_v', 'v_']
        own += ['r#type', 'r#fn', 'r#match'] if 'pub' not in kind else []
        for i, n in enumerate(own):
            nx = own[(i + 1) % len(own)]
            if 'rec' in kind:
                g.raw('%srule %s() -> T = x:%s() "k" { one(x) } / "e" y:%s() { one(y) } / z:v() { one(z) }' % (kind, n, n, nx))
            else:
                g.raw('%srule %s() -> T = "e" x:%s() { one(x) } / "f" !%s() y:v() { one(y) }' % (kind, n, nx, nx))
        out.append(g.text())
    g = corpus.G('n_param')
    for i, n in enumerate(n for n in priv if n not in ('v', 'u', 'w', 'z')):
        g.raw('rule %s<A>(x: rule<A>, y: u8) -> A = z:x() "k" { three(0, y, 0); z }' % n)
        g.raw('rule c%d() -> T = x:%s(<v()>, 1) y:%s::<char>(<[_]>, 2) { two(x, y) }' % (i, n, n))
    out.append(g.text())
    return out


# methods the generated code must reach by their trait, whatever else is called so (a method of the user's
# with the receiver of, say, `Vec::push` can always shadow it)
QUERIES = ('start', 'is_eof', 'position_repr', 'parse_elem', 'parse_slice', 'parse_string_literal', 'len', 'is_empty', 'call_custom_closure', 'into_parse_error')


def scope(names):
    """functions, modules, types and methods of these names around the grammar"""
    low = sorted(n for n in names if n not in PRELUDE and n not in EXT)
    types = sorted(n for n in names | {'Result', 'Option', 'Vec', 'String', 'Box', 'Iterator', 'Range', 'ErrorState', 'RuleResult', 'ParseError', 'ExpectedSet'}
                   if n not in PRELUDE | EXT | {'Fn', 'usize', 'i32', 'Input', 'ParseState', 'PositionRepr', '_', 'Clone'})
    mods = [n for n in types if n[0].islower()] + ['alloc']
    types = [n for n in types if n not in mods]
    src = ['#[allow(non_snake_case)] pub mod scope {', 'use super::T;']
    src += ['pub fn %s() -> T { loop {} }' % n for n in low]
    src += ['pub mod %s { pub fn inner() -> super::super::T { loop {} } }' % n for n in mods]
    src += ['#[derive(Clone)] pub struct %s { pub x: u8 }' % n for n in types]
    ms = list(QUERIES)
    src += ['pub trait Around { %s }' % ' '.join('fn %s(&self) -> T { loop {} }' % n for n in ms), 'impl<A: ?::core::marker::Sized> Around for A {}', '}']
    pre = 'pub use ext::scope::*;\n'
    gs = []
    for name, calls in (('fns', ['%s()' % n for n in low]), ('mods', ['%s::inner()' % n for n in mods]), ('types', ['%s { x: 1 }' % n for n in types]), ('meths', ['3', '4'])):
        for ci, ch in enumerate(chunks(calls, 30)):
            A = tup(ch)
            g = corpus.G('s_%s%d' % (name, ci))
            for c, val in constructs(A):
                g.raw('rule r%d() -> T = zz:%s { two(zz, %s) }' % (g_n(g), c if val else '(%s { mk() })' % c, A))
            g.raw('pub rule p%d(a: &T) -> T = v() { two(a, %s) }' % (g_n(g), A))
            g.raw('#[cache] pub rule p%d() -> T = x:r1() { two(x, %s) }' % (g_n(g), A))
            g.raw('#[cache_left_rec] pub rule p%d() -> T = x:p%d() "k" { two(x, %s) } / v()' % (g_n(g), g_n(g), A))
            if name == 'types':
                for i, t in enumerate(types):
                    g.raw('rule t%d() -> %s = v() { %s { x: 1 } }' % (i, t, t))
                    g.raw('#[cache] rule k%d() -> %s = v() { %s { x: 1 } }' % (i, t, t))
                    g.raw('rule q%d(a: %s, b: rule<%s>) -> %s = b()' % (i, t, t, t))
                    g.raw('rule s%d() -> T = x:q%d(%s { x: 2 }, <t%d()>)* { one(x) }' % (i, i, t, i))
            gs.append(g.text())
    # type parameters
    g = corpus.G('s_tparams')
    tn = sorted((set(n for n in names if n[0].isupper()) | {'S', 'A'}) - PRELUDE - {'Fn', 'Input', 'ParseState', 'PositionRepr', 'T'})
    for n in tn:
        g.raw('rule g%d<%s>(a: rule<%s>, b: &%s) -> %s = x:a() y:(a() ** ",") z:precedence!{ l:(@) "+" r:@ { three(l, r, b) } -- n:a() { one(n) } } { four(y, z, b, 0); x }' % (g_n(g), n, n, n, n))
    g.raw('rule all<%s>(%s) -> T = %s { mk() }' % (', '.join(tn), ', '.join('a%d: rule<%s>' % (i, n) for i, n in enumerate(tn)), ' '.join('a%d()' % i for i in range(len(tn)))))
    gs.append(g.text())
    return gs, '\n'.join(src), pre


# programs that are right whatever the translation calls its own things: (text, key of what is known to fail)
def programs():
    T = 'pub struct Mine(pub u8);\n'
    out = []

    def p(rules, args='', inp='str', before='', known=None, name='g', after=''):
        out.append((before + '::peg::parser!{ pub grammar %s(%s) for %s {\n%s\n}}\n' % (name, args, inp, rules) + after, known))
    # a label hides a grammar argument only for the code that sees the label
    p('  rule a() -> u32 = "a" { x }\n  pub rule b() -> u32 = x:"q" v:a() { v }', 'x: u32', known='a label captures the grammar argument handed on')
    p('  rule a() -> u32 = "a" { x }\n  pub rule b() -> u32 = y:"q" v:a() { v + x }', 'x: u32')
    p('  rule a() -> u32 = "a" { x }\n  pub rule b() -> u32 = v:a() x:"q" { v }', 'x: u32')
    # types of the user's called like the types of the generated module
    for t in ('Input', 'ParseState', 'PositionRepr'):
        p('  pub rule b() -> %s = "q" { %s { a: 1 } }' % (t, t), before='pub struct %s { pub a: u8 }\n' % t, known='a type of the user called %s is hidden' % t)
    p('  pub rule b() -> Output = "q" { Output { a: 1 } }\n  rule c(x: Parser, y: rule<State>) -> Elem = y() { Elem { a: x.a } }', before='pub struct Output { pub a: u8 } pub struct Parser { pub a: u8 } pub struct State { pub a: u8 } pub struct Elem { pub a: u8 }\n')
    # raw identifiers
    p('  pub rule r#type() -> u8 = "t" { 1 }\n  pub rule r#match() = r#fn()\n  #[cache] rule r#fn() = r#type() / r#loop(1, <r#type()>)\n  rule r#loop(r#in: u8, r#if: rule<u8>) = r#let:r#if() { r#in + r#let; }',
      after='pub fn f() -> u8 { let _ = g::r#match("t"); g::r#type("t").unwrap() }\n')
    p('  pub rule r() -> u8 = r#mod:"a" r#use:[r#pub if r#pub == \'a\'] { r#struct as u8 + r#use as u8 + r#pub as u8 }', 'r#struct: u16', after='pub fn f() -> u8 { g::r("aa", 1).unwrap() }\n')
    p('  pub rule a() = "a"', name='r#mod', after='pub fn f() { r#mod::a("a").unwrap() }\n')
    # names of rules that differ only in what the translation adds
    p('  #[cache] rule a() -> u8 = "a" { 1 }\n  #[cache] rule a_cache() -> char = [_]\n  #[cache_left_rec] rule a_cache_cache() = a_cache_cache() "a" / a()\n  pub rule parse_a() = a_cache_cache()\n  rule _a() = "a"\n  rule _parse_a() = _a() a_cache()')
    # grammars written by macros of the user's
    for nm in ('__pos', '__value', 'res', 'pos', 'x', 'str_start', '__input'):
        out.append((('macro_rules! m%(n)s { ($n:ident, $l:ident, $a:ident, $t:ident) => { ::peg::parser!{ pub grammar $n($a: u8) for str {\n'
                    '  pub rule r() -> $t = $l:v($a)? ("k" {} / v(1) {}) { $l.unwrap_or($a) + 1 }\n'
                    "  rule v(%(n)s: u8) -> u8 = $l:['0']? { %(n)s + $a } } } } }\nm%(n)s!(g, %(n)s, arg, u8);\nm%(n)s!(h, lab, %(n)s_, u8);\n") % {'n': nm}, None))
    # shadowed by the grammar's own things
    p('  pub rule g() -> u8 = "a" { 1 }\n  pub rule peg() -> u8 = g()\n  pub rule core() -> u8 = peg()\n  pub rule std() -> Vec<u8> = core() ** "," ', after='pub fn f() -> Vec<u8> { g::std("a").unwrap() }\n')
    p('  pub rule a() -> Result<u8> = "a" { Ok(1) }\n  #[cache] pub rule o() -> Option = a()? { Option }', before='pub type Result<T> = ::core::result::Result<T, ()>;\n#[derive(Clone)] pub struct Option;\n')
    return out
