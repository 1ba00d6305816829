"""Malformed grammars with the offending place marked «so», and well-formed relatives."""
from . import wfam
from .wfam import contexts, places, wrap

G = '::peg::parser!{ grammar g() for str {\n%s\n}}'
B = '''  rule v() -> u8 = "v" { 1 }
  rule u() = "u"
  rule up(x: rule<()>) -> () = x() {}
  rule p1(n: usize) -> u8 = "p" { 1 }
  rule p2(n: usize, f: rule<u8>) -> u8 = "p" r:f() { r }
  rule gen<T: Clone>(f: rule<T>) -> T = f()
  rule _ = " "
'''


def marks(t):
    """text without the marks, and the marked ranges"""
    out, at, st = '', [], []
    for c in t:
        if c == '«':
            st.append(len(out))
        elif c == '»':
            at.append((st.pop(), len(out)))
        else:
            out += c
    return out, at


def every(rs, k=300):
    """rules of one line each, together in a few grammars"""
    return [wrap(['rule r%d() -> () = %s' % (i, x) for i, x in enumerate(rs[a:a + k])], 'g') for a in range(0, len(rs), k)]


def macro_level():
    """reported by the translator itself"""
    out = []
    # undefined rules, everywhere
    for h in ('«zz»()', '«zz»("a", <"b">)', '«___»', 'v:«zz»() { () }', '«r#zz»()', '«zz»::<u8>()'):
        rs = [h] + list(contexts(h))
        if h == '«zz»()':
            rs += [c2 for i, c in enumerate(contexts(h)) for c2 in list(contexts(c))[i % 3::6]]
        out += every([x if x != 'v:«zz»() { () }' else x for x in rs])
    # number of arguments
    for h in ('«cp»()', '«cp»(<"a">, <"b">)', '«c0»(1)', '«c0»(<"a">)', '«np»(<"a">, 2)', 'w:«up»() { () }', '«cp»(1, 2, 3)'):
        out += every([h] + list(contexts(h)))
    # value of a rule without one
    used = ['x:@ { 1 }', '@', '(@)', 'v() / @', '@ / v()', 'x:(@)? { 1 }', 'x:(@)* { 1 }', 'x:((@) ** "s") { 1 }', 'x:(@)+ { 1 }', 'x:(@)*<1,2> { 1 }', 'x:quiet!{ @ } { 1 }',
            'x:(&@) { 1 }', 'x:("a" / @) { 1 }', 'x:(&quiet!{ (@)? }) { 1 }', 'up(<@>) {1}', '"a" y:v() x:@ { y }', 'precedence!{ x:@ { 1 } }', 'precedence!{ x:(@) y:@ z:@@ { 1 } -- "a" { 2 } }'.replace('@@', '@'),
            'x:@ y:@ {? Ok(1) }', '(y:(x:@ { 1 }) { y })', 'gen(<@>)', 'w:gen(<("a" / @)>) {1}']
    for t in used:
        if 'x:(@) y' in t:
            continue
        out.append(G % (B + '  rule r() -> u8 = ' + t.replace('@', '«u»()')))
    out.append(G % (B + '  rule r() -> u8 = precedence!{ x:(@) y:«u»() z:@ { 1 } -- "a" { 2 } }'))
    out.append(G % (B + '  rule q() -> u8 = r()\n  rule r() -> u8 = «q2»()\n rule q2() = "x"'))
    # operand markers
    for m in ('@', '(@)'):
        h = '«%s»' % m
        out += every([h] + [c for c in contexts(h) if 'precedence' not in c])
        for t in ('"a" %s "b" { 1 } -- "n" { 2 }', '%s { 1 } -- "n" { 2 }', '(%s "b") { 1 } -- "n" { 2 }', '("b" %s) { 1 } -- "n" { 2 }', '"a" ("b" / %s) { 1 } -- "n" { 2 }',
                  'x:@ "+" z:%s "-" y:(@) { 1 } -- "n" { 2 }', '"n" { 2 } -- "a" %s? { 1 }', '%s* "a" { 1 } -- "n" { 1 }', '!%s "a" { 1 } -- "n" { 1 }', '"n" { 1 } "a" x:(%s) "b" { 2 }'):
            out.append(G % (B + '  rule r() -> u8 = precedence!{ %s }' % (t % h)))
    # associativity
    for t in ('«x:@ "+" y:@» { 1 } -- "n" { 2 }', '«x:(@) "+" y:(@)» { 1 } -- "n" { 2 }', 'x:(@) "*" y:@ { 1 } «x:@ "+" y:@» { 1 } -- "n" { 2 }', '"n" { 2 } -- «x:@ "+" "q" y:@» { 1 }',
              '«l:position!() "a" r:position!()» { 1 } -- "n" { 2 }', '«l:position!() v() r:position!()» { 1 } -- "n" { 2 }'):
        out.append(G % (B + '  rule r() -> u8 = precedence!{ %s }' % t))
    # attributes
    for a in ('#[cache]', '#[cache_left_rec]'):
        for sig in ('(n: usize) -> u8', '(x: rule<u8>) -> u8', "<'a>() -> u8", '<T>() -> u8', '<T>(n: T) -> u8', '(n: usize)'):
            out.append(G % (B + '  %s rule «rr»%s = v()' % (a, sig) if '->' in sig else B + '  %s rule «rr»%s = "a"' % (a, sig)))
            out.append(G % (B + '  %s pub rule «rr»%s = "a" { 1 }' % (a, sig) if '->' in sig and 'rule<' not in sig else B + '  %s rule «rr»%s = "a"' % (a, sig)))
    out.append(G % '  #[no_eof] rule «rr»() = "a"')
    out.append(G % '  #[cache] #[no_eof] rule «rr»() -> u8 = "a" { 1 }')
    out.append(G % '  #[no_eof] rule «rr»(x: usize) = "a"')
    out.append(G % '  pub rule rr(«x»: rule<()>) = "a"')
    out.append(G % '  pub rule rr(n: usize, «x»: rule<u8>, «y»: rule<u8>) = "a"')
    out.append(G % '  #[no_eof] pub rule rr<T>(n: T, «x»: rule<u8>) = "a"')
    # duplicates
    for a, b in (('rr() = "a"', '«rr»() = "b"'), ('rr() -> u8 = "a" { 1 }', '«rr»(n: usize) = "b"'), ('rr(n: usize) = "a"', '«rr»() = "b"'), ('_ = "a"', '«_» = "b"'), ('_() = "a"', '«_» = "b"'),
                 ('rr<T>() = "a"', '«rr»() = "b"'), ('rr() = "a"', '«rr»() = "a"'), ('rr() = "a"', '«rr»() = "a" rule «rr»() = "c"'), ('r#type() = "a"', '«r#type»() = "a"')):
        for pre in ('', '#[cache] ', 'pub '):
            if pre == '#[cache] ' and ('n: usize' in b or '<T>' in b):
                continue
            out.append(G % ('  rule %s\n  rule mid() = "m"\n  %srule %s' % (a, pre, b)))
    # parameters that are fragments take nothing
    out.append(G % '  rule rr(x: rule<()>) = «x»(1)')
    out.append(G % '  rule rr(x: rule<()>) = «x»(<"a">)')
    out.append(G % '  rule rr(x: rule<u8>) = «x»::<u8>()')
    out.append(G % '  rule rr(n: usize, x: rule<()>) = "a" ("b" / «x»(n))')
    # what the reader of grammars does not accept
    for t in ('  rule rr «=» "a"', '  rule rr() «"a"»', '  rule rr() = "a" «->» u8', '  «fn» rr() = "a"', '  «rule 3»() = "a"', '  rule rr(«1») = "a"', '  rule rr«(n)» = "a"', 
              '  rule rr() = "a" «**»', '  rule rr() = "a" «<»1>', '  rule rr() = "a"*«+»', '  rule rr() = "a" ? «?»', '  rule rr() = x: «{» 1 }',
              '  rule rr() = "a" { 1 } «"b"»', '  rule rr() = "a" { 1 } «{» 2 }', '  rule rr() = &«&»"a"', '  rule rr() = $«$»"a"', '  rule rr() = «%»', '  rule rr() = "a" «|» "b"',
              '  rule rr() = quiet!«(»"a")', '  rule rr() = position!«{»}', '  rule rr() = expected«!{»"a"}', '  rule rr() = precedence!«(»"a")', '  rule rr() = precedence!«{ "a" }»', '  rule rr() = precedence!{ "a" { 1 } -«»}',
              '  #[«inline»] rule rr() = "a"', '  #«!»[cache] rule rr() = "a"', '  #[cache] #[«cache_left_rec»] rule rr() = "a"', '  pub «pub» rule rr() = "a"', '  rule rr() -> «=» "a"', '  rule rr() = a«»',
              '  rule rr() = a «"b"»', '  rule rr() = #«#»(1)', '  rule rr() = #«(»1)', '  rule rr() = "a" «,» "b"', '  rule rr() = "a"«=»"b"', '  rule rr() = "a" ; «"b"»', '  «"x"»',
              '  use a::b «rule» rr() = "a"', '  rule rr() = «,»', '  rule rr() = x:y:«»"a"', '  rule _(«x»: u8) = "a"'):
        if '«»' in t:
            continue
        out.append(G % t)
    return out


def sized(ns):
    """malformed in the n-th place, and well-formed relatives"""
    out, good = [], []
    for n in ns:
        for h in ('«zz»()', '«cp»()', '«c0»(1)', '«%s»()' % ('z' * n)):
            out += every([x for x in places(h, n)])
        # the n-th rule
        fs = ['rule f%d() = "a"' % i for i in range(n)]
        for i in sorted({0, 1, n // 2, n - 1}):
            out.append(G % '\n'.join(['  ' + f for f in fs] + ['  rule «f%d»() = "b"' % i]))
            out.append(G % '\n'.join(['  ' + f for f in fs[:i + 1]] + ['  rule «f%d»() = "b"' % i] + ['  ' + f for f in fs[i + 1:]]))
        out.append(G % '\n'.join('  rule %s() = "b"' % ('same' if i == 0 else '«same»') for i in range(n)))
        out.append(G % '\n'.join(['  ' + f for f in fs] + ['  rule last() = «gone»() f%d()' % (n - 1)]))
        out.append(G % '\n'.join(['  ' + f for f in fs] + ['  #[no_eof] rule «last»() = "a"', '  #[cache] rule «lost»(n: u8) = "a"']))
        w = 'w' * n
        out.append(G % ('  rule %s() = "a"\n  rule «%s»() = "b"' % (w, w)))
        good.append(G % ('  rule %sa() = "a" %sb()\n  rule %sb() = "b"' % (w, w, w)))
        out.append(G % ('  rule %sa() = "a" «%sc»()\n  rule %sb() = "b"' % (w, w, w)))
        good.append(G % '\n'.join('  ' + f for f in fs))
        # the n-th parameter
        ps = lambda k: ', '.join('a%d: u8' % i for i in range(k))
        xs = lambda k: ', '.join('%d' % i for i in range(k))
        fr = lambda k: ', '.join('a%d: rule<()>' % i for i in range(k))
        fx = lambda k: ', '.join('<"a">' for i in range(k))
        for k in sorted({0, 1, n - 1, n + 1, 2 * n}):
            out.append(G % ('  rule many(%s) = "a"\n  rule r() = "b" «many»(%s)' % (ps(n), xs(k))))
            out.append(G % ('  rule many(%s) = "a"\n  rule r() = "b" / «many»(%s)' % (fr(n), fx(k))))
            out.append(G % ('  rule many(%s) = "a"\n  rule r() = "b" «many»(%s)?' % (ps(k), xs(n))))
        good.append(G % ('  rule many(%s) = "a"\n  rule r() = "b" many(%s)' % (ps(n), xs(n))))
        good.append(G % ('  rule many(%s) = "a"\n  rule r() = "b" many(%s)' % (fr(n), fx(n))))
        for i in sorted({0, 1, n // 2, n - 1}):
            out.append(G % ('  pub rule many(%s) = "a"' % ', '.join('a%d: u8' % j if j != i else '«a%d»: rule<()>' % j for j in range(n))))
            out.append(G % ('  rule many(%s) = "a" «a%d»(1)' % (fr(n), i)))
            out.append(G % ('  rule many(%s) = "a"\n  rule r() = many(%s)' % (fr(n), ', '.join('<«zz»()>' if j == i else '<"a">' for j in range(n)))))
        out.append(G % ('  #[cache] rule «many»(%s) = "a"' % ps(n)))
        out.append(G % ('  #[cache] rule «many»<%s>() = "a"' % ', '.join('X%d' % i for i in range(n))))
        # the value of a rule without one, at depth and in the n-th place
        for i in sorted({0, n // 2, n - 1}):
            o = lambda h, t: [t] * i + [h] + [t] * (n - 1 - i)
            out.append(G % (B + '  rule r() -> u8 = x:(%s) { 1 }' % ' / '.join(o('«u»()', 'v()'))))
            out.append(G % (B + '  rule r() -> u8 = %s { 1 }' % ' '.join('x%d:%s' % p for p in enumerate(o('«u»()', 'v()')))))
            out.append(G % (B + '  rule r() -> u8 = precedence!{ %s }' % ' -- '.join(o('«x:@ "+" y:@» { 1 }', 'v:v() { v }'))))
            out.append(G % (B + '  rule r() -> u8 = precedence!{ %s }' % ' -- '.join(o('x:(@) y:«u»() z:@ { 1 }', 'v:v() { v }'))))
            out.append(G % (B + '  rule r() -> u8 = precedence!{ v:v() { v } %s }' % ' '.join(o('x:(@) «@» z:@ { 1 }', 'x:@ "a" { x }'))))
            good.append(G % (B + '  rule r() -> u8 = precedence!{ %s }' % ' -- '.join(o('x:(@) u() z:@ { 1 }', 'v:v() { v }'))))
        for t in ('(%s)?', '(%s)*<2>', 'quiet!{ %s }', '&(%s)', '(%s / v())'):
            h = '«u»()'
            for _ in range(min(n, 12)):
                h = t % h
            out.append(G % (B + '  rule r() -> u8 = x:%s { 1 }' % h))
    return out, good


def whole():
    """cut off inside the header: reported for the macro call as a whole or its last token"""
    return ['::peg::parser!{ }', '::peg::parser!{ grammar }', '::peg::parser!{ grammar g }', '::peg::parser!{ grammar g() }', '::peg::parser!{ grammar g() for }', '::peg::parser!{ grammar g() for str }', '::peg::parser!{ pub }',
            '::peg::parser!{ grammar g() for str { } extra }', '::peg::parser!{ grammar g() for str { rule } }', '::peg::parser!{ grammar g() for str { rule a } }', '::peg::parser!{ grammar g() for str { rule a() = } } rest!{}'[:0] or '::peg::parser!{ 1 }',
            '::peg::parser!{ grammar g() for str { rule a() = "x" { 1 } } grammar h() for str { } }', '::peg::parser!{ grammar g() for str { rule a() -> } }', '::peg::parser!{ grammar g() for str { #[cache] } }']


def rust_level():
    """reported by the compiler for embedded code: the place is in the grammar"""
    out = []
    for t in ('rule r() -> u8 = "a" { «"x"» }', 'rule r() -> u8 = "a" {? «1u8» }', 'rule r() -> u8 = "a" {? Ok(«"x"») }', 'rule r() -> u8 = x:v() { «y» }', 'rule r() -> u8 = (x:v() { x }) { «x» }',
              'rule r() -> u8 = x:v() / "b" { «x» }', 'rule r() -> u8 = x:v()? { «x» }', 'rule r() -> u8 = x:v()* { «x» }', 'rule r() -> u8 = «"a"»', 'rule r() -> u8 = «v()?»', 'rule r() -> u8 = v() / «"a"»',
              'rule r() -> u8 = x:p1(«"n"») { x }', 'rule r() -> u8 = p2(1, <«"a"»>)', 'rule r() -> u8 = "a"*<{«"n"»}> { 1 }', 'rule r() -> u8 = [«1»] { 1 }', "rule r() -> u8 = c:['a'] { «c» }",
              'rule r() -> «Nope» = "a" { 1 }', 'rule r(n: «Nope») = "a"', 'rule r<T>(n: T) -> u8 = "a" { «n» }', 'rule r() -> u8 = #{|i, p| «1» }', 'rule r() -> u8 = «#{|i, p| ::peg::RuleResult::Matched(p, "x")}»',
              'rule r() -> u8 = precedence!{ x:(@) "+" y:@ { «"s"» } -- n:v() { n } }', 'rule r() -> u8 = «precedence!{ x:(@) "+" y:@ { x } -- n:"n" { n } }»', 'rule r() -> u8 = «expected»!(1)'.replace('«expected»', '«expected') .replace('!(1)', '!(1)»'),
              'rule r() -> u8 = x:(!v()) { «x» }', 'rule r() -> u8 = x:$(v()) { «x» }', 'rule r() -> u8 = x:position!() { «x» }', "rule r() -> &'static str = x:$(v()) { «y» }", 'rule r() -> u8 = x:«gen::<u16>(<v()>)» { 1 }',
              'rule r() -> u8 = «gen::<u16>(<v()>)»', 'rule r(n: usize) = «n»()', 'rule r() = x:v() { «x.nope()» }', 'rule r() = "a" { «1» }'):
        if t.endswith('= x:v() { «x.nope()» }'):
            t = 'rule r() = x:v() { x.«nope»() }'
        out.append(G % (B + '  ' + t))
    return out


def relatives():
    """well-formed neighbours of the above"""
    rs = ['rule r() -> u8 = u() { 1 }', 'rule r() = u()', 'rule r() = "a" u()', 'rule r() -> &\'input str = $(u())', 'rule r() = !u()', 'rule r() = u() / "a"', 'rule r() = u()? u()*', 'rule r() = quiet!{ u() }',
          'rule r() -> Vec<u8> = v() ** u()', 'rule r() -> u8 = x:v() u() { x }', 'rule r() -> u8 = &u() x:v() { x }', 'rule r() -> u8 = precedence!{ x:(@) u() y:@ { x } -- u() { 1 } }', 'rule r() = v()', 'rule r() = v() / u()',
          'rule r() -> u8 = p1(1)', 'rule r() -> u8 = p2(1, <v()>)', 'rule r() -> u8 = p2({ 2 }, <"x" { 1 }>)', 'rule r() -> () = up(<"a">)', 'rule r() -> u8 = gen(<v()>)', 'rule r() -> u8 = gen::<u8>(<v()>)', 'rule r() = _ "a" _',
          'rule r() -> u8 = precedence!{ x:(@) "+" y:@ { x } x:(@) "-" y:@ { x } -- x:@ "^" y:(@) { x } -- "-" x:@ { x } -- x:@ "!" { x } -- v:v() { v } }', 'rule r() -> u8 = precedence!{ "-" x:(@) { x } -- x:(@) "!" { x } -- n:v() { n } }',
          'rule r() -> u8 = precedence!{ l:position!() x:@ r:position!() { x } -- x:(@) "+" y:@ { x } -- n:v() { n } }', 'rule r() -> usize = precedence!{ l:position!() "n" { l } "a" r:position!() { r } }',
          '#[cache] rule r() -> u8 = v()', '#[cache] rule r() = "a"', '#[cache_left_rec] rule r() -> u8 = r() "a" { 1 } / "b" { 2 }', '#[cache_left_rec] rule r() -> u8 = v()', '#[cache] pub rule r() -> u8 = v()', '#[no_eof] pub rule r() -> u8 = v()',
          '#[cache] #[no_eof] pub rule r() -> u8 = v()', 'pub rule r(n: usize) -> u8 = p1(n)', 'pub rule r<T: Copy>(n: T) -> T = "a" { n }', 'rule r(x: rule<()>) = x()', 'rule r(x: rule<u8>) -> u8 = x()', 'rule r(zz: rule<u8>) -> u8 = zz()',
          'rule r() -> u8 = "a" {? Ok(1) }', 'rule r() -> u8 = "a" {? Err("no") }', 'rule r() -> u8 = { 1 }', 'rule r() = ', 'rule r() = { }', 'rule r() -> () = "a"', 'rule r() -> () = "a" { }', 'rule r() -> () = ["a"] { }'.replace('["a"]', "['a']"),
          'rule r() = "a"; rule r2() = "b";', 'rule r() = "a"*<2> "b"*<,3> "c"*<2,> "d"*<1,4> "e"*<{1 + 1}>', 'rule r() = "a" ++ "," ","? "b" **<2,> ","', 'rule r#type() = "a" rule r() = r#type()', 'rule r() -> u8 = x:(y:v() { y }) { x }',
          'rule r() -> u8 = x:v() y:v() {? if x == y { Ok(x) } else { Err("same") } }', 'rule r() -> u8 = #{|i, p| ::peg::RuleResult::Matched(p, 1)}', 'rule r() -> u8 = expected!("v")', 'rule r() -> u8 = v() / expected!("v")',
          'rule r() -> Option<u8> = v()?', 'rule r() -> Vec<u8> = v()+', 'rule r() -> usize = position!()', "rule r() -> char = ['a'..='z' | '_']", "rule r() -> char = [^ 'a']", "rule r() -> char = [c if c.is_ascii()]", "rule r() -> char = [c @ 'a'..='f'] { c }"]
    return [G % (B + '  ' + r) for r in rs]
