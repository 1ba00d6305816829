"""Families of grammars for the compile witnesses of the analyses."""
import random
from . import grammar, witness

BASE = '''  rule c0() -> () = "c" {}
  rule c1() -> () = n0() "c" {}
  rule n0() -> () = "a"? {}
  rule n1() -> () = c0() / n2() {}
  rule n2() -> () = n0() n0() {}
  rule np(x: rule<()>) -> () = x()? {}
  rule cp(x: rule<()>) -> () = "b" x() {}
  rule up(x: rule<()>) -> () = x() {}
  rule m3(x: rule<()>, k: usize, y: rule<()>) -> () = x() y() {}
  #[cache] rule nc() -> () = "a" {} / {}
  #[cache_left_rec] rule nl() -> () = nl() "a" {} / {}
  #[cache_left_rec] rule cl() -> () = cl() "a" {} / "a" {}
  rule par() -> () = "(" par() ")" {} / {}
  rule late() -> () = last()
  rule _() -> () = [' ']*<,9> {}
  rule __() -> () = [' ']+ {}
'''
TAIL = '  rule last() -> () = "z"?  {}\n'
LEAVES = ['"a"', '""', 'r""', 'r##""##', 'r#"x"#', '"\\""', "['a']", "[^ 'a']", '[_]', 'position!()', 'expected!("x")',
          '#{|i, p| custom(i, p)}', '##meth()', 'n0()', 'n1()', 'n2()', 'c0()', 'c1()', 'np(<"a">)', 'cp(<"a"?>)', 'up(<"a"?>)', 'nc()', 'nl()', 'cl()',
          'par()', 'late()', '_', '__', '{ () }', '"a" { 1 }', '"a"? { 1 }', '{? Ok(()) }']
FEW = ['"a"', 'n0()', 'position!()', '[_]', '""', 'c0()']


def grp(x):
    return '(' + x + ')'


UN = {
    'opt': lambda x: grp(x) + '?', 'star': lambda x: grp(x) + '*', 'plus': lambda x: grp(x) + '+', 'upto': lambda x: grp(x) + '*<,2>',
    'from': lambda x: grp(x) + '*<2,>', 'range': lambda x: grp(x) + '*<1,2>', 'exact': lambda x: grp(x) + '*<2>', 'dyn': lambda x: grp(x) + '*<{1 + 1}>',
    'dynfrom': lambda x: grp(x) + '*<{1},>', 'dynto': lambda x: grp(x) + '*<,{3}>',
    'amp': lambda x: '&' + grp(x), 'bang': lambda x: '!' + grp(x), 'slice': lambda x: '$' + grp(x), 'quiet': lambda x: 'quiet!{ ' + x + ' }',
    'act': lambda x: '(v:' + grp(x) + ' { 1 })', 'cond': lambda x: '(' + grp(x) + ' {? Ok(1) })', 'atom': lambda x: 'precedence!{ ' + grp(x) + ' { 1 } }',
    'label': lambda x: '(v:' + grp(x) + ')',
}
BI = {
    'seq': lambda x, y: '%s %s' % (grp(x), grp(y)), 'alt': lambda x, y: '%s / %s' % (grp(x), grp(y)), 'sep': lambda x, y: '%s ** %s' % (grp(x), grp(y)),
    'sep1': lambda x, y: '%s ++ %s' % (grp(x), grp(y)), 'sepr': lambda x, y: '%s **<1,3> %s' % (grp(x), grp(y)),
    'sepf': lambda x, y: '%s **<2,> %s' % (grp(x), grp(y)), 'sept': lambda x, y: '%s **<,2> %s' % (grp(x), grp(y)),
    'seqact': lambda x, y: '(a:%s b:%s { 1 })' % (grp(x), grp(y)),
    'atoms': lambda x, y: 'precedence!{ %s { 1 } -- %s { 2 } }' % (grp(x), grp(y)),
    'atoms1': lambda x, y: 'precedence!{ %s { 1 } %s { 2 } }' % (grp(x), grp(y)),
    'atomseq': lambda x, y: 'precedence!{ %s %s { 1 } }' % (grp(x), grp(y)),
    'prefix': lambda x, y: 'precedence!{ %s e:@ { 1 } -- %s { 2 } }' % (grp(x), grp(y)),
    'postfix': lambda x, y: 'precedence!{ e:@ %s { 1 } -- %s { 2 } }' % (grp(x), grp(y)),
    'infix': lambda x, y: 'precedence!{ e:(@) %s f:@ { 1 } -- %s { 2 } }' % (grp(x), grp(y)),
    'span': lambda x, y: 'precedence!{ l:position!() e:@ r:position!() { 1 } -- %s %s { 2 } }' % (grp(x), grp(y)),
}
# fragments as arguments: the loop visitor looks inside, the callee decides what happens
ARG = {'arg': lambda x: 'up(<%s>)' % x, 'argarg': lambda x: 'np(<cp(<%s>)>)' % x, 'arg1': lambda x: 'm3(<%s>, 1, <"a">)' % x, 'arg3': lambda x: 'm3(<"a">, 1, <%s>)' % x}


def depth2(few=FEW):
    for n, f in UN.items():
        for x in LEAVES:
            yield f(x)
    for n, f in BI.items():
        for x in LEAVES:
            for y in few[:3]:
                yield f(x, y)
                if x not in few:
                    yield f(y, x)


def contexts(h):
    for f in list(UN.values()) + list(ARG.values()):
        yield f(h)
    for f in BI.values():
        for y in FEW[:4]:
            yield f(h, y)
            yield f(y, h)


def deep(n, seed, depth):
    rnd = random.Random(seed)

    def go(d):
        if d == 0:
            return rnd.choice(LEAVES)
        k = rnd.random()
        if k < .5:
            return rnd.choice(list(UN.values()))(go(d - 1))
        if k < .9:
            x, y = go(d - 1), go(rnd.randrange(d))
            return rnd.choice(list(BI.values()))(*((x, y) if rnd.random() < .5 else (y, x)))
        return rnd.choice(list(ARG.values()))(go(d - 1))
    for _ in range(n):
        yield go(depth)


def loops_of(x):
    return ['%s*' % grp(x), '%s+' % grp(x), '%s*<2,>' % grp(x), '%s*<{2},>' % grp(x), '%s*<,>' % grp(x)]


def closed(x):
    return ['%s*<,2>' % grp(x), '%s*<2>' % grp(x), '%s*<1,2>' % grp(x), '%s*<,{2}>' % grp(x)]


def loop_rules(thorough, seed):
    out = []
    bodies = LEAVES + [f(x) for f in ARG.values() for x in LEAVES]
    for x in bodies:
        out += loops_of(x) + closed(x)
    for i, x in enumerate(depth2()):
        out.append(loops_of(x)[i % 5])
    # separators
    for i, x in enumerate(bodies):
        for j, y in enumerate(bodies):
            if thorough or (i + j) % 5 == 0 or x in FEW or y in FEW:
                out.append(BI[('sep', 'sep1', 'sepf')[(i + j) % 3]](x, y))
                if (i + j) % 7 == 0:
                    out.append(BI[('sept', 'sepr')[(i + j) % 2]](x, y))
    # a loop in every place
    for l in ('("a"?)*', '("a")*', 'n0()+', "'x' ** _".replace("'x'", 'n0()'), 'c0() ** n0()', 'n0()*<2,>', '("" / "a")*'):
        for c in contexts(l):
            out.append(c)
            if thorough:
                out += list(contexts(c))
    for i, c in enumerate(contexts('n0()*')):
        for j, c2 in enumerate(contexts(c)):
            if (i + j) % 3 == 0:
                out.append(c2)
    out += list(deep(6000 if thorough else 500, seed, 3))
    return out


def wrap(rules, name, params='', base=BASE, tail=TAIL):
    return '::peg::parser!{ grammar %s() for str {\n%s%s%s}}' % (name, base, ''.join('  %s\n' % r for r in rules), tail)


def loop_grammars(thorough, seed):
    rs = loop_rules(thorough, seed)
    gs = []
    for k in range(0, len(rs), 400):
        gs.append(wrap(['rule r%d() = %s' % (k + i, x) for i, x in enumerate(rs[k:k + 400])], 'g'))
    ps = []
    for i, x in enumerate(['x()', 'x()?', 'x() n0()', 'n0()', 'np(<x()>)', 'up(<n0()*>)', 'x() / ""', '"a" x()', 'quiet!{x()}', '$(x())']):
        for l in loops_of(x):
            ps.append('rule p%d(x: rule<()>) = %s' % (len(ps), l))
            if 'x' in x:
                continue
            ps.append('rule p%d(n0: rule<()>) = %s' % (len(ps), l))
            ps.append('rule p%d<T>(c0: rule<T>, x: rule<()>, k: usize) = %s' % (len(ps), l))
            ps.append('rule p%d(n1: usize) = %s' % (len(ps), l))
            ps.append('rule p%d(n0: rule<()>) = "b" n0() / "c" %s' % (len(ps), l))
    gs.append(wrap(ps, 'g'))
    # nullability of rules in every order of definition, through calls and cycles
    gs.append('''::peg::parser!{ grammar g() for str {
  rule a() = b()*
  rule b() = c()+
  rule c() = d() / "x"
  rule d() = e() e()
  rule e() = "y"?
  rule f() = g()*
  rule g() = "x" g() / h() "y"
  rule h() = "(" f() ")" / "z"? i()
  rule i() = &"q" "q"
  rule k() = l()*
  rule l() = m() / "x"
  #[cache_left_rec] rule m() = m() "y" / n()
  #[cache_left_rec] rule n() = m() "z" / ""
  rule o() = q()*
  rule q() = ("a" / q2())
  rule q2() = "b" q()?
  pub rule top() = a() f() k() o()
}}''')
    return gs


# ---- left recursion
def selfrec(rs, i, body, flag=''):
    rs.append('%srule r%d() -> () = %s' % (flag, i, body.replace('@@', 'r%d()' % i)))


def rec_grammars(thorough, seed):
    rs = []
    flags = ('', '#[cache] ', '#[cache_left_rec] ')
    k = 0

    def one(body, flag=''):
        nonlocal k
        selfrec(rs, k, body, flag)
        k += 1
    for x in LEAVES + list(depth2()):
        one('%s @@ "x" {} / "y" {}' % grp(x))
    for x in LEAVES:
        one('"y" {} / v:%s w:@@ {}' % grp(x), flags[1])
        one('"y" {} / v:%s w:@@ {}' % grp(x), flags[2])
    cs = list(contexts('@@')) + ['@@', '"a" / @@', '@@ / "a"', '"a" @@', 'v:@@ "a" { () }', '"a" / "b" {} / (@@ "c" / "d") "e"',
                                 'precedence!{ @@ { () } }', 'precedence!{ x:(@) "+" y:@ { () } -- n:@@ { () } }', 'precedence!{ "-" y:@ { () } -- "(" n:@@ ")" { () } }',
                                 'precedence!{ x:@ @@ { () } -- "n" { () } }', 'precedence!{ @@ x:@ { () } -- "n" { () } }', 'precedence!{ x:(@) @@ y:@ { () } -- "n" { () } }',
                                 'precedence!{ l:position!() n:@ r:position!() { () } -- @@ { () } }']
    for i, c in enumerate(cs):
        for f in flags:
            one(c, f)
    for i, c in enumerate(contexts('@@')):
        for j, c2 in enumerate(contexts(c)):
            if thorough or (i * 7 + j) % 5 == 0:
                one(c2, flags[(i + j) % 4 if (i + j) % 4 < 3 else 0])
    for x in deep(3000 if thorough else 300, seed + 1, 2):
        for c in (list(contexts('@@'))[hash_(x) % 40], '@@'):
            one('%s %s' % (grp(x), c))
    gs = [wrap(rs[a:a + 400], 'g') for a in range(0, len(rs), 400)]
    # longer cycles
    ts = ['@', '@ "x" / "y"', '"y" / @', 'n0() @', 'c0() @', '&"a" @', '!@ "a"', '("a" / @)', '(@)?', '(@ "x")+', '@ ** "a"', 'n0() ** @', '"a" ++ @', 'quiet!{ @ }', '$(@)',
          'precedence!{ @ { () } -- "a" { () } }', '"a"*<,2> @', '"a"*<2> @', 'expected!("q") / @', '#{|i, p| custom(i, p)} @', 'v:@ { () }', 'w:late() v:@ { () }',
          'up(<"a">) @', 'np(<"a">) @', 'par() "x" / par() @']
    rs = []
    for i, t1 in enumerate(ts):
        for j, t2 in enumerate(ts):
            f1, f2 = flags[(i + j) % 3], flags[(i + 2 * j + j // 3) % 3]
            if (i * j) % 4:
                f1 = f2 = ''
            n = len(rs)
            rs.append('%srule r%d() -> () = %s' % (f1, n, t1.replace('@', 'r%d()' % (n + 1))))
            rs.append('%srule r%d() -> () = %s' % (f2, n + 1, t2.replace('@', 'r%d()' % n)))
    for a in range(0, len(rs), 250):
        gs.append(wrap(rs[a:a + 250], 'g'))
    rnd = random.Random(seed)
    for _ in range(400 if thorough else 60):
        m = rnd.randrange(3, 7)
        rs = []
        for i in range(m):
            body = ' / '.join(rnd.choice(ts).replace('@', 'q%d()' % rnd.randrange(m)) for _ in range(rnd.randrange(1, 3)))
            if rnd.random() < .3:
                body = '%s q%d() / %s' % (rnd.choice(('n0()', '"a"?', '"a"', 'c0()', 'q%d()' % rnd.randrange(m))), rnd.randrange(m), body)
            rs.append('%srule q%d() -> () = %s' % (rnd.choice(('', '', '', flags[1], flags[2])), i, body.replace('{ () }', '{ () }')))
        gs.append(wrap(rs, 'g'))
    # parameters with the name of a rule
    gs.append(wrap(['rule s%d(%s) -> () = %s' % (i, p, b.replace('@', 's%d' % i)) for i, (p, b) in enumerate([
        ('x: rule<()>', 'x() @(<x()>)'), ('x: rule<()>', '@(<x()>)'), ('n0: rule<()>', 'n0() @(<n0()>)'), ('c0: rule<()>', 'c0() @(<"a">)'),
        ('n: usize', 'n0() @(n)'), ('n: usize', '"a" @(n)'), ('n0: usize, x: rule<()>', 'x()? @(n0, <x()>)'), ('x: rule<()>', 'np(<x()>) @(<x()>)'),
        ('x: rule<()>', 'up(<n0()>) @(<x()>)'), ('x: rule<()>', 'cp(<x()>) @(<x()>)'), ('s8: rule<()>', 's8() "a" / "b"'), ('s11: rule<()>', 's11()'), ('x: rule<()>', 's11(<"a">) x()'),
    ])], 'g'))
    return gs


def places(h, n):
    """the expression as each of n neighbours, and at depth n"""
    for i in sorted({0, 1, n // 2, n - 2, n - 1}):
        o = lambda t: [t] * i + [h] + [t] * (n - 1 - i)
        yield ' '.join(o('"a"'))
        yield ' '.join(o('n0()'))
        yield ' / '.join(o('"a"'))
        yield ' / '.join('"%s" %s' % ('ab' * (k + 1), x) for k, x in enumerate(o('c0()')))
        yield 'precedence!{ %s }' % ' -- '.join('%s { 1 }' % x for x in o('c0()'))
        yield 'precedence!{ %s -- "n" { 1 } }' % ' -- '.join('x:(@) %s y:@ { 1 }' % grp(x) for x in o('"+"'))
        yield 'precedence!{ %s { 1 } }' % ' { 1 } '.join(o('c0()'))
    for f in ('quiet', 'opt', 'label', 'bang', 'atom', 'amp', 'slice', 'act'):
        t = h
        for _ in range(min(n, 16)):
            t = UN[f](t)
        yield t
    t = h
    for k in range(min(n, 16)):
        t = (UN['quiet'], BI['seq'], BI['alt'], UN['opt'], BI['sep'])[k % 5](*((t,) if k % 5 in (0, 3) else ('n0()', t) if k % 5 == 1 else ('"a"', t)))
    yield t


def nulls(n):
    """possibly empty and consuming expressions of n parts"""
    yield ' '.join(['n0()'] * n)
    yield ' '.join(['n0()'] * (n - 1) + ['c0()'])
    yield ' '.join(['c0()'] + ['n0()'] * (n - 1))
    yield ' / '.join(['"a"'] * (n - 1) + ['n0()'])
    yield ' / '.join(['n0()'] + ['"a"'] * (n - 1))
    yield ' / '.join(['"a"'] * n)
    yield '"%s"' % ('a' * n)
    yield '("a")*<%d>' % n
    yield 'n0()*<%d>' % n
    yield '("a")*<%d,>' % n
    yield '("a")*<,%d>' % n
    yield 'chain0()'
    yield 'nchain0()'
    for f in ('quiet', 'opt', 'label', 'bang', 'atom'):
        for t in ('n0()', 'c0()'):
            for _ in range(min(n, 16)):
                t = UN[f](t)
            yield t


def sized_rules(n):
    out = []
    for i in range(n):
        out.append('rule chain%d() -> () = %s {}' % (i, 'c0()' if i == n - 1 else 'n0() chain%d() n0()' % (i + 1)))
        out.append('rule nchain%d() -> () = %s {}' % (i, 'n0()' if i == n - 1 else 'n0() nchain%d()' % (i + 1)))
    out.append('rule many(%s) = "m"' % ', '.join('x%d: rule<()>' % i for i in range(n)))
    return out


def sized_loops(ns):
    gs = []
    for n in ns:
        rs = []
        for k, x in enumerate(nulls(n)):
            rs += loops_of(x) if k % 2 else loops_of(x)[:2]
            rs += [t % k for t in ('nul%d()*', 'n0() ** nul%d()', '(n0() nul%d())+')]
        for l in ('n0()*', '("a")*'):
            rs += list(places(l, n))
            rs += ['many(%s)' % ', '.join('<%s>' % (l if j == i else '"a"') for j in range(n)) for i in sorted({0, 1, n - 2, n - 1})]
        gs.append(wrap(sized_rules(n) + ['rule nul%d() -> () = %s {}' % (k, grp(x)) for k, x in enumerate(nulls(n))] +
                       ['rule r%d() = %s' % (k, x) for k, x in enumerate(rs)], 'g'))
        # the last of n rules
        gs.append(wrap(['rule f%d() = "a"' % i for i in range(n)] + ['rule last_one() = n0()*', 'rule very_last() = c0()*'], 'g', base=BASE[:BASE.index('  rule n1()')], tail=''))
    return gs


def sized_rec(ns):
    gs = []
    for n in ns:
        rs, k = sized_rules(n), 0
        for x in nulls(n):
            selfrec(rs, k, '%s @@ "x" {} / "y" {}' % grp(x))
            k += 1
        for c in places('@@', n):
            for f in ('', '#[cache_left_rec] '):
                selfrec(rs, k, c, f)
                k += 1
        gs.append(wrap(rs, 'g'))
        # cycles of n rules; one of them may resolve it
        for at in (None, 0, n // 2, n - 1):
            for fl in ('#[cache_left_rec] ', '#[cache] '):
                gs.append(wrap(['%srule cy%d() -> () = %s {}' % (fl if i == at else '', i, 'n0()? cy%d() "z"' % ((i + 1) % n)) for i in range(n)], 'g'))
        gs.append(wrap(['rule s%d() -> () = s%d() "a" {} / "b"' % (i, i) for i in range(n)], 'g'))
        # the cycle closed by the last of n rules called first
        for last in ('n0() ln%d() "z" {}' % (n - 1), '"z" ln%d() {}' % (n - 1), 'n0() ln%d() {}' % (n // 2)):
            gs.append(wrap(['rule ln%d() -> () = %s' % (i, last if i == n - 1 else 'n0() ln%d() {}' % (i + 1)) for i in range(n)], 'g'))
        gs.append(wrap(['rule f%d() = "a"' % i for i in range(n)] + ['rule lr() = lr() "x" / "y"'], 'g'))
        gs.append(wrap(['rule lp(%s) -> () = n0() lp(%s) {}' % (', '.join('x%d: usize' % i for i in range(n)), ', '.join('x%d' % i for i in range(n)))], 'g'))
    return gs


FRAGMENT = [
    '::peg::parser!{ grammar g() for str { rule up(x: rule<()>) -> () = x() {} rule foo() -> () = up(<foo()>) } }',
    '::peg::parser!{ grammar g() for str { rule up(x: rule<()>) -> () = "a" x() {} rule foo() -> () = up(<foo()>)? {} } }',
    '::peg::parser!{ grammar g() for str { rule up(x: rule<()>) -> () = x() {} rule foo() -> () = up(<"a" foo()? {}>) } }',
    '::peg::parser!{ grammar g() for str { rule up(x: rule<()>) -> () = x() "a" {} rule foo() -> () = "b" up(<foo()>) {} / "c" } }',
    '::peg::parser!{ grammar g() for str { rule up(foo: rule<()>) -> () = foo() "a" {} rule foo() -> () = up(<"b">) / "c" } }',
]


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def inner(text):
    """the grammar inside the macro call, and where it starts"""
    i = text.index('parser!{') + len('parser!{')
    return text[i:text.rindex('}')], i
