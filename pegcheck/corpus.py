"""Witness grammars, generated per property.

An expression is (text, type) with type None when it has no value to use.  Every expression is put in
tail position (value used / unused), under a label and between two labelled elements; constructors are
applied to every kind of operand, in every order of nesting up to two levels, and to a range of sizes."""
import itertools
from . import grammar

HDR = 'pub grammar %s%s(%s) for %s {\n'


class E:
    __slots__ = ('t', 'ty', 'k', 'at', 'nul')

    def __init__(self, t, ty, k, at=False, nul=False):
        self.t, self.ty, self.k, self.at = t, ty, k, at   # at: needs no parentheses under an operator
        self.nul = nul                                     # may match without consuming (as the analyses see it)

    def p(self):
        return self.t if self.at else '(' + self.t + ')'


LIT = E('"ab"', '()', 'lit', True)
PAT = E("['a'..='z']", 'char', 'pat', True)
INV = E("[^ 'x' | 'y']", 'char', 'inv', True)
VAL = E('v()', 'T', 'val', True)
UNIT = E('u()', None, 'unit', True)
CUS = E('#{|i, p| custom(i, p)}', 'T', 'custom', True)
POS = E('position!()', 'usize', 'position', True, True)
FAIL = E('expected!("thing")', 'T', 'fail', True)
PARG = E('w(<v()>)', 'T', 'call-arg', True)
RARG = E('z(num())', 'T', 'call-rust', True)
LEAVES = [LIT, PAT, INV, VAL, UNIT, CUS, POS, FAIL, PARG, RARG]
CONSUMING = [e for e in LEAVES if not e.nul]

# token forms for grammars over a user-defined input
TPAT = E('[Tk::A | Tk::B(_)]', 'Tk', 'pat', True)
TINV = E('[^ Tk::D]', 'Tk', 'inv', True)
METH = E('##meth()', 'T', 'method', True)
METH1 = E('##meth1(num())', 'T', 'method', True)
TCUS = E('#{|i, p| custom(i, p)}', 'T', 'custom', True)


def opt(e):
    return E(e.p() + '?', 'Option<%s>' % e.ty if e.ty else None, 'opt', False, True)


def rep(e, suffix, sep=None):
    nul = '*' in suffix and ('<' not in suffix or suffix.split('<')[1].startswith((',', '0'))) or e.nul
    return E(e.p() + ' ' + suffix + (' ' + sep.p() if sep else ''), 'Vec<%s>' % e.ty if e.ty else None, 'rep', False, nul)


def amp(e):
    return E('&' + e.p(), e.ty, 'pos', False, True)


def bang(e):
    return E('!' + e.p(), '()', 'neg', False, True)


def quiet(e):
    return E('quiet!{ %s }' % e.t, e.ty, 'quiet', True, e.nul)


def slc(e):
    return E('$' + e.p(), "&'input str", 'slice', False, e.nul)


def choice(*es):
    ty = es[0].ty if all(e.ty == es[0].ty for e in es) else None
    return E(' / '.join(e.t for e in es), ty, 'choice', False, any(e.nul for e in es))


def act(elems, code):
    """elems: (label or None, E)"""
    return E(' '.join((l + ':' if l else '') + (e.t if e.k in ('opt', 'rep', 'pos', 'neg', 'slice') else e.p()) for l, e in elems) + ' { ' + code + ' }', 'T', 'action', False,
             all(e.nul for _, e in elems))


def seq(*es):
    return E(' '.join(e.t if e.k in ('opt', 'rep', 'pos', 'neg', 'slice') else e.p() for e in es), '()', 'seq', False, all(e.nul for e in es))


def vague(e):
    return 'expected!' in e.t


def arg1(e, x):
    return 'one::<%s>(%s)' % (e.ty, x) if vague(e) else 'one(%s)' % x


def cap(e):
    """x:E { one(x) }"""
    return act([('x', e)], arg1(e, 'x')) if e.ty else act([(None, e)], 'mk()')


REPS = ['*', '+', '*<3>', '*<2,>', '*<,2>', '*<1,3>']
REPN = ['*<{num()}>', '*<{num()},>', '*<,{num()}>', '*<{num()},{num()}>']
SEPS = ['**', '++', '**<3>', '**<2,>', '**<,2>', '**<1,3>', '**<{num()},{num()}>', '**<0,1>', '**<1>', '**<0,>']


class BadUnused(Exception):
    pass


def unused_ty(e):
    """type an expression keeps when its value is not used (calls, tokens and loops are reduced to `()`,
    code and the like keep theirs); raises if alternatives would disagree, as such a rule has no type"""
    k = e.k
    if k == 'choice':
        ts = {t for t in map(unused_ty, e.alts) if t != '*'}
        if len(ts) > 1:
            raise BadUnused()
        return ts.pop() if ts else '*'
    if k == 'action':
        for l, x in e.elems:
            used_ok(x) if l else fixed(x)
        c = (e.code[0] if e.code is not None else '').strip()
        return '()' if not c or c.startswith('nothing') else 'T'
    if k in ('opt', 'rep', 'neg', 'slice'):
        fixed(e.e)
        if k == 'rep' and e.sep is not None:
            fixed(e.sep)
        return 'S' if k == 'slice' else '()'
    if k in ('pos', 'quiet'):
        return unused_ty(e.e)
    if k == 'call':
        call_ok(e)
        return '()'
    if k == 'prec':
        used_ok(e)
        return 'P'
    return {'lit': '()', 'pat': '()', 'position': 'usize', 'fail': '*', 'custom': 'T', 'method': 'T'}[k]


def fixed(e):
    if unused_ty(e) == '*':
        raise BadUnused()


def call_ok(e):
    for kind, a in e.args:
        if kind != 'rust':
            used_ok(a)


def used_ok(e):
    k = e.k
    if k == 'choice':
        for a in e.alts:
            used_ok(a)
    elif k == 'action':
        unused_ty(e)
    elif k in ('neg', 'slice'):
        fixed(e.e)
    elif k in ('opt', 'pos', 'quiet', 'rep'):
        used_ok(e.e)
        if k == 'rep' and e.sep is not None:
            fixed(e.sep)
    elif k == 'call':
        call_ok(e)
    elif k == 'prec':
        for ops in e.levels:
            for elems, _, _ in ops:
                for l, x in elems:
                    if x.k != 'marker':
                        used_ok(x) if l else fixed(x)


def typable(text):
    g = grammar.parse('grammar g() for str { %s\n }' % text)
    for r in g.rules:
        try:
            if r.ret:
                used_ok(r.expr)
            elif unused_ty(r.expr) not in ('()', '*'):
                return False
        except BadUnused:
            return False
    return True


class G:
    """collects rules of one grammar"""

    def __init__(self, name, inp='str', args='', lt='', base=True):
        self.name, self.inp, self.args, self.lt = name, inp, args, lt
        self.rules = []
        self.seen = set()
        self.n = 0
        self.base = base
        self.extra = ''

    def raw(self, text):
        self.rules.append(text)

    def rule(self, body, ty=None):
        key = (body, ty)
        if key in self.seen:
            return
        self.seen.add(key)
        if not typable('rule r()%s = %s' % (' -> ' + ty if ty else '', body)):
            return
        self.n += 1
        self.rules.append('rule r%d()%s = %s' % (self.n, ' -> ' + ty if ty else '', body))

    def forms(self, e, which=(0, 1, 2, 3)):
        for w in which:
            if w == 0 and e.ty:
                self.rule(e.t, e.ty)
            elif w == 1:
                self.rule(e.t)
            elif w == 2:
                if e.ty:
                    self.rule('x:%s y:v() { two%s(x, y) }' % (pe(e), '::<%s, _>' % e.ty if vague(e) else ''), 'T')
                else:
                    self.rule('%s y:v() { one(y) }' % pe(e), 'T')
            elif w == 3:
                self.rule('x:v() %s y:v() { two(x, y) }' % pe(e), 'T')

    def text(self):
        out = HDR % (self.name, self.lt, self.args, self.inp)
        out += self.extra
        if self.base:
            out += base_rules(self.inp)
        return out + '\n'.join('  ' + r for r in self.rules) + '\n}\n'


def base_rules(inp):
    el = 'T'
    if inp == 'str':
        p, q = "['m']", '"q"'
    elif inp == '[u8]':
        p, q = "[b'm']", '"q"'
    elif inp == '[Tk]':
        p, q = '[Tk::A]', '[Tk::D]'
    else:
        p, q = '[Tk::A]', '"q"'
    return ('  rule v() -> T = x:%s { one(x) }\n  rule u() = %s\n'
            '  rule w(f: rule<T>) -> T = f()\n  rule z(n: usize) -> T = x:%s { two(x, n) }\n') % (p, q, p)


def pe(e):
    return e.t if e.k in ('opt', 'rep', 'pos', 'neg', 'slice') or e.at else '(' + e.t + ')'


def composites(e, reps=True):
    out = [opt(e), amp(e), bang(e), quiet(e), slc(e), choice(e, VAL) if e.ty == 'T' else choice(e, UNIT), cap(e)]
    if reps and not e.nul:
        out += [rep(e, '*'), rep(e, '+'), rep(e, '*<1,3>')]
    return out


def rot(i, *ws):
    return ws[i % len(ws)]


# ---------------------------------------------------------------------------
# every way an identifier can be spelt
LABELS = ('_a', '__', '_0', 'X', 'LOUD', 'camelCase', 'r#type', 'r#fn', 'a1', 'a_very_long_label_name_that_goes_on', 'x_', '__b')


def c01():
    """sequences, labels, actions, conditional actions"""
    g = G('seqs')
    pool = [LIT, PAT, INV, VAL, UNIT, CUS, PARG, RARG, POS, FAIL]
    comp = [opt(VAL), rep(VAL, '*'), rep(PAT, '+', LIT), amp(VAL), bang(UNIT), quiet(PAT), slc(UNIT), choice(VAL, CUS), cap(PAT), opt(UNIT)]
    allx = pool + comp
    lab = lambda e, l: (l if e.ty and not vague(e) else None, e)
    for i, a in enumerate(allx):
        g.rule(cap(a).t, 'T')
        g.rule(act([(None, a)], 'mk()').t, 'T')
        g.rule(act([lab(a, 'x')], '? cond(x)' if a.ty and not vague(a) else '? cond(())').t, 'T')
        g.rule(pe(a) + ' ' + pe(a))
    for a in allx:
        for b in (LIT, PAT, VAL, rep(VAL, '*'), opt(PAT), bang(LIT), POS):
            la, lb = lab(a, 'x'), lab(b, 'y')
            vs = [l for l, _ in (la, lb) if l]
            g.rule(act([la, lb], {0: 'mk()', 1: 'one(%s)', 2: 'two(%s, %s)'}[len(vs)] % tuple(vs)).t, 'T')
            la, lb = lab(b, 'x'), lab(a, 'y')
            vs = [l for l, _ in (la, lb) if l]
            g.rule(act([la, lb], {0: '? cond(())', 1: '? cond(%s)', 2: '? cond2(%s, %s)'}[len(vs)] % tuple(vs)).t, 'T')
            g.rule(act([(None, b), lb], arg1(a, 'y') if lb[0] else 'mk()').t, 'T')
            g.rule(act([la, (None, a)], 'one(x)' if la[0] else 'mk()').t, 'T')
            g.rule(pe(a) + ' ' + pe(b))
    # long sequences, shadowed labels, unused labels, nested actions
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20):
        es = [allx[(i * 3 + n) % len(allx)] for i in range(n)]
        es = [(('x%d' % i) if e.ty and not vague(e) else None, e) for i, e in enumerate(es)]
        ls = [l for l, _ in es if l]
        g.rule(act(es, 'one((%s))' % ' '.join(l + ',' for l in ls)).t, 'T')
        g.rule(act(es, '? cond((%s))' % ' '.join(l + ',' for l in ls)).t, 'T')
        g.rule(act([((l if i % 2 else None), e) for i, (l, e) in enumerate(es)], 'one((%s))' % ' '.join(l + ',' for i, (l, _) in enumerate(es) if l and i % 2)).t, 'T')
        if n:
            g.rule(' '.join(pe(e) for _, e in es))
        vals = [('x%d' % i, [VAL, PAT, LIT, CUS][i % 4]) for i in range(n)]
        g.rule(act(vals, 'one((%s))' % ' '.join('x%d,' % i for i in reversed(range(n)))).t, 'T')
    g.rule("x:v() x:['a'] { one(x) }", 'T')
    g.rule('x:v() y:v() x:v() { two(x, y) }', 'T')
    g.rule('x:v() y:(x:v() { one(x) }) { two(x, y) }', 'T')
    g.rule('x:v() y:(z:v() { two(x.clone(), z) }) { two(x, y) }', 'T')
    g.rule('a:v() b:(c:v() d:(e:v() { one(e) }) {? cond2(c, d) }) { two(a, b) }', 'T')
    g.rule('v() {? cond(()) } / x:v() { one(x) }', 'T')
    g.rule('x:(v() v()) { one(x) }', 'T')
    g.rule('{ mk() }', 'T')
    g.rule('{? cond(()) }', 'T')
    g.rule('{}')
    g.rule('u() {}')
    g.rule('x:v() {?if guard(&x) { Ok(x) } else { Err("bad") } }', 'T')
    g.rule('x:v() {? let y = cond(x)?; cond(y) }', 'T')
    g.rule('x:v() { let y = one(x); if guard(&y) { return two(1, y); } three(1, 2, y) }', 'T')
    g.rule('x:v() { nothing(); one(x) }', 'T')
    g.rule('x:v() { nothing() }')
    g.rule('x:(y:v() { nothing() }) { one(x) }', 'T')
    g.rule('u() x:({ mk() }) u() { one(x) }', 'T')
    for l in LABELS:
        for e in (VAL, LIT, PAT, CUS, opt(VAL), rep(PAT, '*'), cap(VAL)):
            g.rule('%s:%s { one(%s) }' % (l, e.p(), l), 'T')
            g.rule('%s:%s {? cond(%s) }' % (l, e.p(), l), 'T')
        g.rule('a:v() %s:v() b:v() { three(a, %s, b) }' % (l, l), 'T')
        g.rule('%s:v() v() { one(%s) } / v() %s:v() { one(%s) }' % (l, l, l, l), 'T')
        g.rule('(%s:v() y:v() {? cond2(%s, y) })*' % (l, l), 'Vec<T>')
        g.rule('%s:v() y:w(<z:v() { two(&%s, z) }>) { two(%s, y) }' % (l, l, l), 'T')
    # labels are seen in the block of their own sequence and in what is nested in it, nowhere else
    for q in ("(x:['1'] \",\")", '(x:v() u())', '(u() x:v())', '(x:v() (x:w(<v()>) u()) u())', "((x:['1'] u()) u())", '(x:v() u())?', '(x:v() u())*', "(x:['1'] y:['2'])+", '(x:v() u()) ** ","', 'u() ++ (x:v() ",")',
              '&(x:v() u())', '!(x:v() u())', 'quiet!{ x:v() u() }', '$(x:v() u())', '(x:v() u() / y:w(<v()>) u())', '(x:v() u() / u() y:v())', 'w(<x:v() { one(x) }>)', '(x:v() { one(x) })', 'w(<(x:v() u()) { mk() }>)',
              'precedence!{ x:(@) "+" y:@ { two(x, y) } -- x:v() u() { one(x) } }', '(y:v() {? cond2(&x, y) })', '(u() y:v() { two(&x, y) })', 'quiet!{ (y:v() { two(&x, y) }) }', '($(y:v() u()) x:v())'):
        g.rule('x:v() %s y:v() { two(x, y) }' % q, 'T')
        g.rule('x:v() y:v() %s { two(x, y) }' % q, 'T')
        g.rule('x:v() u() %s y:v() {? cond2(x, y) }' % q, 'T')
        g.rule('k:(x:v() %s y:v() { two(x, y) }) { one(k) }' % q, 'T')
        g.rule('x:v() %s (%s) y:v() { two(x, y) } / u() { mk() }' % (q, q), 'T')
        if not q.startswith('&') and 'y:' not in q.replace('y:v() {', '').replace('y:@', '').replace('y:v() u()', ''):
            g.rule('x:v() z:(%s %s y:v() { one(y) }) { two(x, z) }' % (q, q), 'T')
    h = G('seqt', 'In')
    for a in (TPAT, TINV, METH, METH1, TCUS, LIT, VAL):
        h.forms(a)
        h.rule(act([('x', a), ('y', VAL)], 'two(x, y)').t, 'T')
        h.rule(act([('x', VAL), ('y', a)], '? cond2(x, y)').t, 'T')
    return [g, h]


def c02():
    g = G('choices')
    vs = [VAL, CUS, PARG, RARG, act([('x', PAT)], 'one(x)'), act([('x', VAL), (None, LIT), ('y', PAT)], '? cond2(x, y)'), quiet(VAL), FAIL]
    us = [LIT, UNIT, seq(LIT, UNIT), opt(UNIT), bang(LIT), rep(UNIT, '*'), PAT, opt(VAL), rep(PAT, '+', LIT)]
    for a, b in itertools.product(vs, vs):
        g.rule(choice(a, b).t, 'T')
    for a, b in itertools.product(vs + us, us):
        g.rule(choice(a, b).t)
        g.rule('x:v() %s { one(x) }' % choice(a, b).p(), 'T')
    for n in list(range(2, 11)) + [12, 16, 17, 20, 33]:
        es = [vs[(i + n) % len(vs)] for i in range(n)]
        es2 = [E('"k%d"' % i, '()', 'lit', True) for i in range(n)]
        g.forms(choice(*es))
        g.forms(choice(*es2))
        g.rule('x:v() c:%s { two(x, c) }' % choice(*es).p(), 'T')
    # nested choices in every position, and with shared prefixes
    for outer in range(4):
        alts = [VAL, CUS, PARG, RARG]
        alts[outer] = E('(' + choice(FAIL, VAL, CUS).t + ')', 'T', 'choice')
        g.forms(choice(*alts))
        alts[outer] = act([('x', E('(' + choice(VAL, CUS).t + ')', 'T', 'choice', True)), (None, LIT)], 'one(x)')
        g.forms(choice(*alts))
    for c in (choice(VAL, CUS), choice(LIT, UNIT), choice(VAL, CUS, RARG)):
        for x in (opt(c), amp(c), bang(c), quiet(c), slc(c), rep(c, '*'), rep(c, '++', LIT), rep(UNIT, '**', c), rep(c, '*<2>')):
            g.forms(x)
    g.rule('x:v() "1" { one(x) } / x:v() "2" y:v() { two(x, y) } / x:v() { three(1, 2, x) }', 'T')
    g.rule("x:v() {? cond(x) } / ['a'] y:v() {? cond(y) } / z:v() { one(z) }", 'T')
    g.rule('a:v()? "x" { one(a) } / b:v()* "y" { one(b) } / { mk() }', 'T')
    g.rule('"a" / {}')
    g.rule('{} / "a"')
    # alternatives that take nothing and may still fail, or never do
    never = ['{ mk() }', '{? cond(()) }', '&v()', 'w(<{? cond(()) }>)', 'quiet!{ {? cond(()) } }', 'precedence!{ {? cond(()) } { mk() } }' [:0] or 'precedence!{ !u() { mk() } }', 'x:position!() {? cond(x) }', 'x:v()? {? cond(x) }',
             'x:u()*<,3> {? cond(()) }'.replace('x:', ''), '!u() { mk() }', 'x:&v() {? cond(x) }', 'expected!("e")']
    for a, b in itertools.product(never, never):
        if a != b:
            g.rule('%s / %s' % (a, b), 'T')
    for a in never[:-1]:
        g.rule('%s / v() / %s' % (a, never[0]), 'T')
        g.rule('x:v() y:(%s / w(<v()>)) { two(x, y) }' % a, 'T')
        g.rule('x:v() (%s / w(<v()>)) { one(x) }' % a, 'T')
        g.rule('"a" / %s / "b"' % ('(%s)' % a if '{' in a else a))
        for c in ('(%s)?', '&(%s)', 'quiet!{ %s }', '(%s)*<2>', '(%s)*<,2>'):
            g.rule('x:%s y:v() { two(x, y) }' % (c % a), 'T')
        for c in ('(%s)?', '&(%s)', 'quiet!{ %s }', '(%s)*<1,2>', '!(%s)'):
            g.rule('%s / "b"' % (c % a))
    for a in ('""', '("")?', '"" u()?', '(u()?)', '!"a"', '!(!u())', 'u()*<0>', 'u()*<,0>', '(u() / "")'):
        for b in ('u()', '"b"', '""'):
            g.rule('%s / %s' % (a, b))
            g.rule('x:v() (%s / %s) "z" { one(x) }' % (a, b), 'T')
            g.rule('%s / %s' % (b, a))
    h = G('choicet', 'In')
    for a, b in itertools.product((TPAT, TINV), (TPAT, TINV)):
        h.forms(choice(a, b))
    for a, b in itertools.product((METH, METH1, TCUS, VAL), repeat=2):
        h.forms(choice(a, b))
    return [g, h]


def c03(sizes=()):
    g = G('reps')
    inner = [LIT, PAT, VAL, UNIT, CUS, PARG, act([('x', VAL), (None, LIT)], 'one(x)'), act([('x', VAL)], '? cond(x)'), choice(VAL, CUS), choice(LIT, UNIT), quiet(VAL), slc(UNIT), rep(VAL, '+'), FAIL,
             seq(LIT, UNIT)]
    for i, e in enumerate(inner):
        for k, s in enumerate(REPS + REPN):
            g.forms(rep(e, s), (0, 1, 2, 3) if i < 4 else rot(i + k, (0, 3), (1, 2)))
        for o in (opt(e), opt(opt(e)), opt(rep(e, '+'))):
            g.forms(o)
    seps = [LIT, PAT, VAL, UNIT, choice(LIT, UNIT), seq(LIT, VAL), opt(LIT), bang(UNIT), act([('x', VAL)], 'one(x)'), quiet(LIT), rep(UNIT, '*')]
    for i, e in enumerate((VAL, UNIT, PAT, LIT, choice(VAL, CUS), act([('x', VAL), (None, LIT)], 'one(x)'))):
        for k, s in enumerate(SEPS):
            for m, sp in enumerate(seps):
                if m < 2 or (i + k + m) % 3 == 0:
                    g.forms(rep(e, s, sp), rot(i + k + m, (0, 1), (1, 2), (2, 3), (0, 3)))
    # repetitions inside repetitions
    for a in (rep(VAL, '+'), rep(VAL, '++', LIT), rep(UNIT, '*<2>'), rep(PAT, '*<1,2>')):
        for s in ('*', '+', '*<2,>'):
            g.forms(rep(a, s), (0, 2))
        for s in ('**', '++', '**<,2>'):
            g.forms(rep(a, s, UNIT), (1, 2))
    for n in sorted(set([0, 1, 2, 3, 4, 5]) | set(sizes)):
        for s in ('*<%d>', '*<%d,>', '*<,%d>', '*<%d,%d>'):
            t = s % ((n,) * s.count('%'))
            g.forms(rep(VAL, t), (0, 1))
            g.forms(rep(UNIT, '*' + t, LIT), (1,))
            g.forms(rep(VAL, '*' + t, LIT), (0,))
    g.rule('n:v() x:v()*<{numof(&n)}> { one(x) }', 'T')
    g.rule('n:v() x:v()**<{numof(&n)},{numof(&n)}> "," { one(x) }', 'T')
    # greedy: what follows cannot take elements back
    g.rule('x:v()* y:v() { two(x, y) }', 'T')
    g.rule('x:v()? y:v() { two(x, y) }', 'T')
    g.rule('x:v() ** "," ","? { one(x) }', 'T')
    g.rule('x:(v()*) ** "," y:v()** ";" { two(x, y) }' .replace('(v()*)', '(v()+)'), 'T')
    h = G('rept', 'In')
    for e in (TPAT, TINV, METH, LIT):
        for s in ('*', '+', '*<2>', '*<1,3>'):
            h.forms(rep(e, s))
        for s in ('**', '++', '**<2,3>'):
            h.forms(rep(e, s, LIT), (0, 1))
            h.forms(rep(VAL, s, e), (0, 1))
    return [g, h]


def c04():
    g = G('looks')
    inner = LEAVES + [opt(VAL), rep(VAL, '*'), rep(PAT, '++', LIT), slc(UNIT), choice(VAL, CUS), cap(PAT), seq(LIT, UNIT), act([('x', VAL)], '? cond(x)'), quiet(VAL), rep(UNIT, '*<2,3>')]
    for e in inner:
        for f in (amp, bang):
            g.forms(f(e))
            g.rule('x:v() %s %s y:v() { two(x, y) }' % (f(e).t, pe(LIT)), 'T')
        g.forms(amp(amp(e)), (0, 2))
        g.forms(amp(bang(e)), (1, 3))
        g.forms(bang(amp(e)), (1, 2))
        g.forms(bang(bang(e)), (1, 3))
        g.forms(quiet(amp(e)), (0, 1))
        g.forms(opt(amp(e)), (0, 1))
        g.forms(rep(E('(%s v())' % bang(e).t, '()', 'seq', True), '*'), (0, 1))
        g.forms(rep(act([(None, amp(e)), ('x', VAL)], 'one(x)'), '+'), (0,))
        g.forms(slc(amp(e)), (0,))
        g.forms(choice(E(bang(e).t + ' "z"', '()', 'seq'), LIT))
    for d in range(1, 8):
        e = VAL
        for i in range(d):
            e = (amp, bang)[i % 2](e)
        g.forms(e, (1, 3))
        e = VAL
        for i in range(d):
            e = amp(e)
        g.forms(e, (0, 2))
    g.rule('a:&v() b:v() { two(a, b) }', 'T')
    g.rule('!v() !u() b:v() { one(b) }', 'T')
    g.rule('&(x:v() {? cond(x) }) b:v() { one(b) }', 'T')
    h = G('lookt', 'In')
    for e in (TPAT, TINV, METH, LIT):
        h.forms(amp(e))
        h.forms(bang(e))
    return [g, h]


PATS_CHAR = ["['a']", "['a' | 'b']", "['a'..='z' | 'A'..='Z' | '_']", '[_]', "[^ 'a']", "[^ 'a'..='z']", "[^ _]", '[x if guard(x)]', '[^ x if guard(x)]',
             "['a'..='f' | '0'..='9']", "[x @ 'a'..='z' if guard(x)]", "['\\'' | '\"' | '\\\\']", "['\\n']", "['\\u{1F600}']", "[^'^']", "['^']"]
LITS = ['"a"', '"ab"', '"\\n"', '"\\""', '"\\\\"', 'r"x"', 'r#"a"b"#', '"\\u{e9}"', '"é"', '"日本"', '"a b  c"', '"/"', '"//"', '"{"', '"}"', '"\'"', '"\\t\\r\\0"', '"' + 'long' * 12 + '"']


def c05():
    g = G('pats')
    for p in PATS_CHAR:
        e = E(p, 'char', 'pat', True)
        g.forms(e)
        g.rule('x:%s y:%s { two(x, y) }' % (p, p), 'T')
        g.rule('%s x:%s { one(x) }' % (p, p), 'T')
        for f in (opt, amp, bang, quiet, slc):
            g.forms(f(e), (0, 1))
        g.forms(rep(e, '*'), (0, 1))
        g.forms(rep(e, '++', E(p, 'char', 'pat', True)), (1,))
    for l in LITS:
        e = E(l, '()', 'lit', True)
        g.forms(e)
        g.rule('x:%s y:v() %s { two(x, y) }' % (l, l), 'T')
        for f in (opt, amp, bang, quiet, slc):
            g.forms(f(e), (0, 1))
        g.forms(rep(e, '*'), (1, 2))
    g.forms(E('""', '()', 'lit', True), (0, 1, 2, 3))
    h = G('patt', 'In')
    for p in ('[Tk::A]', '[Tk::B(_)]', '[Tk::B(3)]', '[Tk::B(n) if guard(n)]', '[Tk::C { x, .. }]', '[t]', '[^ Tk::A | Tk::D]', '[Tk::B(1..=9) | Tk::A]', '[t @ Tk::C { .. }]', '[Tk::C { x, y } if guard((x, y))]',
              '[Tk::B(n) | Tk::C { x: n, .. } if guard(n)]', '[^ Tk::C { x: 1, y: _ }]'):
        e = E(p, 'Tk', 'pat', True)
        h.forms(e)
        h.forms(rep(e, '+'), (0, 1))
        h.forms(choice(e, TPAT), (0, 1))
    k = G('patb', '[u8]')
    for p in ("[b'a'..=b'z']", "[^ b'\\n']", '[0 | 255]', '[x if guard(x)]'):
        e = E(p, 'u8', 'pat', True)
        k.forms(e)
        k.forms(rep(e, '*'), (0, 1))
    for l in ('"ab"', '"\\x00"', '"é"'):
        k.forms(E(l, '()', 'lit', True))
    s = G('pats2', '[Tk]')
    for p in ('[Tk::A]', '[Tk::B(_) | Tk::D]', '[^ Tk::D]'):
        s.forms(E(p, 'Tk', 'pat', True))
    return [g, h, k, s]


def c06():
    g = G('slices')
    inner = [LIT, PAT, VAL, UNIT, CUS, POS, PARG, opt(VAL), rep(VAL, '*'), rep(UNIT, '++', LIT), seq(LIT, UNIT), choice(LIT, UNIT), choice(VAL, CUS), cap(VAL), bang(LIT), amp(VAL), quiet(UNIT), slc(UNIT), act([('x', VAL)], '? cond(x)')]
    for e in inner:
        s = slc(e)
        g.forms(s)
        g.rule('x:v() s:%s y:v() t:%s { four(x, s, y, t) }' % (s.t, s.t), 'T')
        for f in (opt, amp, bang, quiet):
            g.forms(f(s), (0, 1))
        g.forms(choice(s, slc(VAL)), (0, 1))
        if not s.nul:
            g.forms(rep(s, '*'), (0,))
            g.forms(rep(s, '++', UNIT), (0,))
    for p in ('p:position!() x:v() q:position!() { three(p, x, q) }', 'x:v() p:position!() { two(x, p) }', 'x:v() p:position!() y:u() q:position!() { three(x, p, q) }'.replace('y:u()', 'u()'),
              'p:position!() { one(p) }', 'a:(p:position!() v() q:position!() { two(p, q) }) b:(p:position!() { one(p) }) { two(a, b) }', 'x:(p:position!() v() { one(p) })* { one(x) }',
              'x:(p:position!() y:v() { two(p, y) }) ** (q:position!() u() { one(q) }) { one(x) }', 'p:&position!() v() q:position!()? { two(p, q) }', 'u() $(p:position!() u())', 'p:position!() !v() q:position!() { two(p, q) }',
              'p:position!() (v() / u()) q:position!() { two(p, q) }'):
        g.rule(p, None if p.startswith('u()') else 'T')
    for c in ('#{|i, p| custom(i, p)}', '#{custom}', '#{custom1(num())}', '#{|i: &str, p| { nothing(); custom(i, p) }}', "#{|i, p| if guard(p) { ::peg::RuleResult::Failed } else { ::peg::RuleResult::Matched(p, mk()) }}"):
        e = E(c, 'T', 'custom', True)
        g.forms(e)
        for f in (opt, amp, bang, quiet, slc):
            g.forms(f(e), (0, 1))
        g.forms(rep(e, '+'), (0, 1))
        g.forms(choice(VAL, e), (0, 1))
        g.rule('n:v() x:#{|i, p| { one(&n); custom(i, p) }} { two(n, x) }', 'T')
    # matchers that use up what they capture, once
    for c in ('|i, p| { one(n); custom(i, p) }', 'move |i, p| { two(n, p); custom(i, p) }', '{ let k = n; move |i, p| { one(k); custom(i, p) } }', 'custom2(n)'):
        g.rule('n:v() x:#{%s} { one(x) }' % c, 'T')
        g.rule('n:v() #{%s} u()' % c)
    h = G('methods', 'In')
    for c in ('##meth()', '##meth1(1)', '##meth1(num())', '##meth2(mk(), 2)'):
        e = E(c, 'T', 'method', True)
        h.forms(e)
        for f in (opt, amp, bang, quiet):
            h.forms(f(e), (0, 1))
        h.forms(E('$' + c, 'U', 'slice'))
        h.forms(rep(e, '*'), (0, 1))
        h.forms(rep(e, '**', LIT), (0, 1))
        h.forms(choice(e, VAL), (0, 1))
    h.rule('n:v() x:##meth1(n.clone()) { two(n, x) }', 'T')
    for e in (VAL, LIT, TPAT, seq(LIT, UNIT), rep(TPAT, '+')):
        h.forms(E('$' + e.p(), 'U', 'slice'))
    return [g, h]


INFIX = ['"+"', 'u()', '"*"', '"^"', 'o:v()', '"-" o:v() "-"', '"%"', '"<"']


def op(kind, i, extra=''):
    t = INFIX[i % len(INFIX)]
    ot = 'o' if 'o:' in t else None
    if kind == 'l':
        return 'x:(@) %s y:@ { %s }' % (t, 'three(x, o, y)' if ot else 'two(x, y)')
    if kind == 'r':
        return 'x:@ %s y:(@) { %s }' % (t, 'three(x, o, y)' if ot else 'two(x, y)')
    if kind == 'pre':
        return '%s x:@ { %s }' % (t, 'two(o, x)' if ot else 'one(x)')
    if kind == 'prer':
        return '%s x:(@) { %s }' % (t, 'two(o, x)' if ot else 'one(x)')
    if kind == 'post':
        return 'x:@ %s { %s }' % (t, 'two(x, o)' if ot else 'one(x)')
    if kind == 'postl':
        return 'x:(@) %s { %s }' % (t, 'two(x, o)' if ot else 'one(x)')
    if kind == 'atom':
        return ['n:v() { one(n) }', '"(" e:v() ")" { one(e) }', 'n:$(u()) { one(n) }', 'v() { mk() }', '"[" a:v() b:v() "]" { two(a, b) }'][i % 5]


def prec(levels, span=None):
    """levels: lists of (kind, index)"""
    ls = []
    for lv in levels:
        ls.append(' '.join(op(k, i) for k, i in lv))
    return 'precedence!{ ' + ((span + ' ') if span else '') + ' -- '.join(ls) + ' }'


SPAN = 's:position!() n:@ e:position!() { three(s, n, e) }'


def c07(big=True):
    g = G('precs')
    A = [('atom', 0)]
    kinds = ['l', 'r', 'pre', 'prer', 'post', 'postl']
    for k in kinds:
        for span in (None, SPAN):
            g.rule(prec([[(k, 0)], A], span), 'T')
            g.rule(prec([A, [(k, 0)]], span), 'T')
            g.rule(prec([[(k, 4)] + A], span), 'T')
    for a, b in itertools.product(kinds, kinds):
        g.rule(prec([[(a, 0)], [(b, 2)], A], SPAN if a == b else None), 'T')
        g.rule(prec([[(a, 0), (b, 2)], A + [('atom', 1)]]), 'T')
    for a, b, c in itertools.product('lr', ('pre', 'post'), 'lr'):
        g.rule(prec([[(a, 0)], [(b, 4)], [(c, 5)], A, [('atom', 1), ('atom', 4)]], SPAN), 'T')
        g.rule(prec([A, [(a, 0), (c, 2)], [('pre', 1), ('post', 6)], [(c, 5), (b, 3)]]), 'T')
    for n in (4, 5, 6, 8) + ((11,) if big else ()):
        g.rule(prec([[('lr'[i % 2], i)] for i in range(n)] + [A]), 'T')
    for n in (3, 4, 6):
        g.rule(prec([[('lr'[n % 2], i) for i in range(n)], [('post', 7)], A]), 'T')
        g.rule(prec([[('l', 0)]] + [[('atom', i) for i in range(n)]]), 'T')
    g.rule(prec([A]), 'T')
    g.rule(prec([A, [('atom', 1)]], SPAN), 'T')
    # embedding
    p = E(prec([[('l', 0)], [('r', 2)], A]), 'T', 'prec', True)
    for x in (opt(p), rep(p, '*'), rep(p, '++', LIT), amp(p), bang(p), quiet(p), slc(p), choice(p, VAL), choice(VAL, p)):
        g.forms(x)
    g.forms(p)
    g.rule('a:v() p:%s b:v() { three(a, p, b) }' % p.t, 'T')
    g.rule('w(<%s>)' % p.t, 'T')
    g.rule('a:%s "," b:%s { two(a, b) }' % (p.t, p.t), 'T')
    g.rule('a:%s "," b:%s { two(a, b) } / %s' % (p.t, prec([[('r', 2)], A]), prec([[('post', 2)], [('l', 0)], A])), 'T')
    g.rule('q:v() p:precedence!{ x:(@) "+" y:@ { three(&q, x, y) } -- n:v() { two(&q, n) } } { two(q, p) }', 'T')
    g.rule('precedence!{ s:position!() @ e:position!() { two(s, e) } x:(@) "+" y:@ { two(x, y) } -- n:v() { one(n) } }', 'T')
    g.rule('precedence!{ position!() n:@ position!() { one(n) } x:(@) "+" y:@ { two(x, y) } -- n:v() { one(n) } }', 'T')
    g.rule('precedence!{ x:(@) "+" y:@ { two(x, y) } s:position!() n:@ e:position!() { three(s, n, e) } "-" z:@ { one(z) } -- n:v() { one(n) } }', 'T')
    g.rule('precedence!{ (@) "+" @ { mk() } -- "-" @ { mk() } -- @ "!" { mk() } -- v() { mk() } }', 'T')
    g.rule('precedence!{ x:(@) "+" y:@ { two(x, y) } x:(@) "-" y:@ { two(x, y) } -- x:(@) "*" y:@ { two(x, y) } x:(@) "/" y:@ { two(x, y) } -- x:@ "^" y:(@) { two(x, y) } -- n:v() { one(n) } "(" e:v() ")" { one(e) } }', 'T')
    g.rule('precedence!{ x:(@) p:position!() "+" q:position!() y:@ { four(x, p, q, y) } -- n:v() { one(n) } }', 'T')
    g.rule('precedence!{ x:(@) !"+" &"-" o:v()? y:@ { three(x, o, y) } -- n:v() { one(n) } }', 'T')
    g.rule('precedence!{ x:(@) o:("a" / "b") y:@ { three(x, o, y) } -- x:(@) v() ** "," y:@ { two(x, y) } -- n:v() { one(n) } }'.replace('v() ** ","', 'v() ++ ","'), 'T')
    g.rule('precedence!{ x:(@) "?" y:v() ":" z:@ { three(x, y, z) } -- n:v() { let k = one(n); if guard(&k) { return k; } two(1, k) } }', 'T')
    g.rule('precedence!{ x:(@) "+" y:@ { nothing() } -- v() { nothing() } }')
    for l in LABELS:
        g.rule('precedence!{ %s:(@) "+" _y:@ { two(%s, _y) } -- _o:v() %s:@ { two(_o, %s) } -- _x:(@) %s:v() { two(_x, %s) } -- %s:v() { one(%s) } }' % ((l,) * 8), 'T')
        g.rule('precedence!{ %s:position!() _n:@ _e:position!() { three(%s, _n, _e) } x:(@) %s:"+" y:@ { three(x, %s, y) } -- _s:v() { one(_s) } }' % ((l,) * 4), 'T')
    for n in (3, 4, 5, 6, 8):
        for k in ('l', 'r', 'pre', 'post'):
            g.rule(prec([[(k, i) for i in range(n)] + A], SPAN), 'T')
        g.rule(prec([A + [('l', 0)], [('lr'[n % 2], i) for i in range(n)], [('post', i) for i in range(n)], [('pre', i) for i in range(n)], [('atom', i % 5) for i in range(n)]], SPAN), 'T')
    g.raw('rule rec() -> T = precedence!{ x:(@) "+" y:@ { two(x, y) } -- "(" e:rec() ")" { one(e) } n:v() { one(n) } }')
    g.raw('#[cache] rule cp() -> T = precedence!{ x:(@) "+" y:@ { two(x, y) } -- "(" e:cp() ")" { one(e) } n:v() { one(n) } }')
    for q in ("(x:['1'] n:[',' ])", '(n:v() x:v() u())', '(y:v() u())?', '&(x:v() n:v() y:v())', '$(x:v() n:v())', 'quiet!{ (n:v() { one(n) }) }', 'w(<x:v() n:w(<v()>) { two(x, n) }>)'):
        g.rule('precedence!{ x:(@) %s "+" y:@ { two(x, y) } -- x:@ "^" %s y:(@) { two(x, y) } -- "-" %s x:@ { one(x) } -- x:@ "!" %s { one(x) } -- n:v() %s { one(n) } "(" %s n:v() ")" { one(n) } }' % ((q,) * 6), 'T')
    return [g]


def c08():
    g = G('calls')
    g.raw('rule p1(a: rule<T>) -> T = a()')
    g.raw('rule p2(a: rule<T>, b: rule<char>) -> T = x:a() y:b() { two(x, y) }')
    g.raw('rule p3(n: usize, a: rule<T>, m: T) -> T = x:a()*<{n}> { two(x, m.clone()) }')
    g.raw('rule p4(a: rule<()>) = a() a()')
    g.raw('rule p5(a: rule<T>) -> T = x:p1(<a()>) { one(x) }')
    g.raw('rule p6(a: rule<T>, b: rule<T>) -> T = p1(<b()>) / p1(<a()>)')
    g.raw('rule p7(n: usize) -> T = x:v() { two(x, n) }')
    g.raw('rule p8<X>(a: rule<X>) -> Vec<X> = a() ** ","')
    g.raw('rule p9<X: Clone>(x: X) -> T = v() { one(x.clone()) }')
    g.raw('rule pa(f: impl Fn(T) -> T) -> T = x:v() { f(x) }')
    g.raw('rule pb(a: rule<T>, b: rule<T>, c: rule<T>, d: rule<T>) -> T = w:a() x:b() y:c() z:d() { four(w, x, y, z) }')
    g.raw("rule pc(s: &'input str) -> T = x:v() { two(x, s) }")
    g.raw('rule pd(a: rule<T>) -> T = x:a() y:a()? z:a()* !a() &a() { three(x, y, z) }')
    g.raw('rule pe(a: rule<T>, s: rule<()>) -> Vec<T> = a() ** s()')
    g.raw('rule pf(a: rule<T>) -> T = precedence!{ x:(@) "+" y:@ { two(x, y) } -- n:a() { one(n) } }')
    args = [VAL, CUS, PARG, RARG, choice(VAL, CUS), cap(PAT), act([('x', VAL)], '? cond(x)'), act([('x', VAL), (None, LIT), ('y', PAT)], 'two(x, y)'), quiet(VAL), amp(VAL), FAIL, E('p1(<v()>)', 'T', 'c', True)]
    for a in args:
        for r in ('p1(<%s>)', 'p5(<%s>)', 'p2(<%s>, <[\'x\']>)', 'p3(1, <%s>, mk())', 'p6(<%s>, <v()>)', 'p6(<v()>, <%s>)', 'pd(<%s>)', 'pf(<%s>)', 'pb(<v()>, <%s>, <p1(<v()>)>, <v()>)'):
            g.rule(r % a.t, 'T')
        g.rule('p8(<%s>)' % a.t, 'Vec<T>')
        g.rule('pe(<%s>, <"," / "u">)' % a.t, 'Vec<T>')
        g.rule('x:v() y:p1(<%s>) z:v() { three(x, y, z) }' % a.t, 'T')
        g.rule('p1(<%s>)' % a.t)
        g.rule('p4(<%s {}>)' % (a.p(),))
    for a in (LIT, UNIT, seq(LIT, UNIT), choice(LIT, UNIT), opt(UNIT), bang(LIT), seq(VAL, VAL)):
        if a.k == 'unit':
            g.rule('p4(<u() {}>)')
            continue
        if a.ty == '()':
            g.rule('p4(<%s>)' % a.t)
            g.rule('pe(<v()>, <%s>)' % a.t, 'Vec<T>')
    # arguments see enclosing values
    g.rule('n:v() x:p1(<y:v() { two(n.clone(), y) }>) { two(n, x) }', 'T')
    g.rule('n:v() x:p3(numof(n.clone()), <y:v() { two(&n, y) }>, n.clone()) { two(n, x) }', 'T')
    g.rule('n:v() x:p1(<m:v() y:p1(<z:v() { three(&n, &m, z) }>) { two(m, y) }>) { one(x) }', 'T')
    g.rule('n:v() x:p7(numof(n)) { one(x) }', 'T')
    g.rule('p7(num())', 'T')
    g.rule('p7(num())')
    g.rule('p9(1u8)', 'T')
    g.rule('x:p9::<u16>(7) { one(x) }', 'T')
    g.rule('x:p9::<(u16, T)>((7, mk())) { one(x) }', 'T')
    g.rule('p9::<u8>(1)', 'T')
    g.rule('p9::<u8>(1)')
    g.rule('x:v() p9::<u8>(1) y:v() { two(x, y) }', 'T')
    g.raw('rule ga<X: Dflt>() -> T = x:v() { two(x, X::dflt()) }')
    g.raw('rule gb<X: Dflt>() = v() {? cond(X::dflt()).map(|_| ()) }')
    g.raw('rule gc<X: Dflt, Y: Dflt>() -> (X, Y) = v() { (X::dflt(), Y::dflt()) }')
    g.raw('rule gd<X: Dflt>() -> T = x:ga::<X>() ga::<u16>() gb::<X>() { one(x) }')
    for c in ('ga::<u8>()', 'ga::<(u8, u16)>()', 'gb::<u8>()', 'gc::<u8, u16>()', 'gc::<u16, u8>()', 'gd::<u8>()', 'ga::<Vec<T>>()'):
        g.raw('rule g_%d() = %s' % (len(g.rules), c))
        g.raw('rule g_%d() -> T = x:v() %s y:v() { two(x, y) }' % (len(g.rules), c))
        g.raw('rule g_%d() = "k" (%s)* / %s? !%s' % (len(g.rules), c, c, c))
        if c[1] != 'b':
            g.raw('rule g_%d() -> T = x:%s { one(x) }' % (len(g.rules), c))
            g.raw('rule g_%d() -> T = x:(%s)* y:(%s)? &%s { two(x, y) }' % (len(g.rules), c, c, c))
            g.raw('rule g_%d() -> T = x:w(<x:%s { one(x) }>) { one(x) }' % (len(g.rules), c))
    for l in LABELS:
        g.raw('rule lp%d(%s: usize, y: T) -> T = x:p7(%s) z:v()*<{%s}> { four(x, y.clone(), z, %s) }' % (len(g.rules), l, l, l, l))
        if l == '__':
            continue
        g.raw('rule lr%d(%s: rule<T>) -> T = x:%s() y:p1(<%s()>) %s() { two(x, y) }' % (len(g.rules), l, l, l, l))
        if l != 'r#type':
            g.raw('rule %s() -> T = x:v() { one(x) }' % l)
        g.raw('rule lu%d() -> T = x:%s() %s() y:w(<%s()>) { two(x, y) }' % (len(g.rules), l, l, l))
    g.rule('pa(|t| two(1, t))', 'T')
    g.rule('n:v() x:pa(|t| two(&n, t)) { two(&n, x) }', 'T')
    g.rule('pa(one)', 'T')
    g.rule('s:$(u()) x:pc(s) { two(s, x) }', 'T')
    for e in (E('p1(<v()>)', 'T', 'c', True), E('p7(num())', 'T', 'c', True), E('p4(<"x">)', None, 'c', True), E("p8(<['a']>)", 'Vec<char>', 'c', True, True)):
        g.forms(e)
        for f in (opt, amp, bang, quiet, slc):
            g.forms(f(e), (0, 1))
        if not e.nul:
            g.forms(rep(e, '*'), (0, 1))
        g.forms(rep(UNIT, '**', e), (1,))
        g.forms(choice(e, e), (0, 1))
    # `_` rules, raw and unusual names
    g.raw('rule _ = " "*')
    g.raw('rule __ = u()')
    g.raw("rule ___ = ['x']")
    g.rule('x:v() _ y:v() __ ___ { two(x, y) }', 'T')
    g.rule('_ v() _ ** _'.replace('_ ** _', '__ ** _'))
    g.raw('rule r#type() -> T = v()')
    g.rule('x:r#type() { one(x) }', 'T')
    g.raw('pub rule shadow(v: usize, u: &T) -> T = x:p7(v) { three(x, v, u.clone()) }')
    g.raw('rule inner_param(v: rule<T>) -> T = x:v() { one(x) }')
    g.rule("inner_param(<x:['q'] { one(x) }>)", 'T')
    g.raw('pub rule withargs(a: usize, b: &T, c: &Vec<u8>) -> T = x:p7(a) y:v()*<{a}> { five(x, y, a, b, c.clone()) }')
    g.raw('pub rule nonvalue(a: usize) = p7(a)')
    out = [g]
    # grammar arguments reach every rule
    for i, a in enumerate(('k: usize', 'k: usize, t: &T', 'k: usize, t: &T, s: &str, h: fn(T) -> T')):
        h = G('garg%d' % i, 'str', a)
        h.extra = ''
        u = ['k', 't', 's', 'h'][:a.count(':')]
        tup = '(%s)' % ' '.join(x + ',' for x in u)
        h.raw('rule q0() -> T = x:v() { two(x, %s) }' % tup)
        h.raw('rule q1(n: usize) -> T = x:q0() { three(x, n, %s) }' % tup)
        h.raw('rule q2(a: rule<T>) -> T = x:a() y:q1(k) { three(x, y, %s) }' % tup)
        h.raw('rule q3() -> T = x:q2(<z:q0() { two(z, %s) }>) y:v()*<{k}> { three(x, y, %s) }' % (tup, tup))
        h.raw('rule q4() -> T = precedence!{ x:(@) "+" y:@ { three(x, y, %s) } -- n:q0() { two(n, k) } }' % tup)
        h.raw('#[cache] rule q5() -> T = x:q0() {? cond2(x, %s) }' % tup)
        h.raw('#[cache_left_rec] rule q6() -> T = x:q6() "+" y:q5() { three(x, y, %s) } / q5()' % tup)
        h.raw('pub rule q7() -> T = x:q6() y:q3()? z:q4()* !q0() { four(x, y, z, %s) }' % tup)
        h.raw('pub rule q8(m: usize) -> T = x:q1(m) { three(x, m, %s) }' % tup)
        h.raw('rule q9<X>(x: X) -> T = y:q0() { two(y, k) }')
        h.raw("rule qa() -> T = q9('c') / x:q9::<u8>(1) { one(x) }")
        out.append(h)
    return out


def c09():
    g = G('pubs')
    n = 0
    for cache in ('', '#[cache] ', '#[cache_left_rec] '):
        for eof in ('', '#[no_eof] '):
            for ret, body in (('', 'u() v()'), (' -> T', 'x:v() { one(x) }'), (' -> Vec<T>', 'v() ** ","'), (" -> &'input str", '$(u()+)'), (' -> ()', '"x"')):
                for vis in ('pub', 'pub(crate)'):
                    n += 1
                    g.raw('%s%s%s rule p%d()%s = %s' % (cache, eof, vis, n, ret, body))
    g.raw('pub rule a1(n: usize) -> T = x:z(n) { two(x, n) }')
    g.raw('#[no_eof] pub rule a2(n: usize, t: &T) -> T = x:z(n) { three(x, n, t) }')
    g.raw('pub rule a3<X: Clone>(x: &X) -> T = y:v() { two(y, x.clone()) }')
    g.raw("pub rule a4(s: &'input str, f: fn(T) -> T) -> T = y:v() { f(y) }")
    g.raw('pub rule a5<X>(x: &X) -> T where X: Clone = y:v() { two(y, x.clone()) }')
    g.raw('pub rule empty() = {}')
    g.raw('pub rule opt() -> Option<T> = v()?')
    out = [g]
    for i, inp in enumerate(('In', '[u8]', '[Tk]')):
        h = G('pubi%d' % i, inp)
        h.raw('pub rule p() -> T = v()')
        h.raw('#[no_eof] pub rule q() -> T = x:v() u() { one(x) }')
        h.raw('#[cache] pub rule c() -> T = v()')
        h.raw('pub rule d(n: usize) = z(n)')
        out.append(h)
    h = G('puba', 'str', 'k: usize, t: &T')
    h.raw('pub rule p() -> T = x:v() { three(x, k, t) }')
    h.raw('#[no_eof] #[cache] pub rule q() -> T = x:v() { three(x, k, t) }'.replace('#[no_eof] #[cache]', '#[cache] #[no_eof]'))
    h.raw('pub rule r(k2: usize, t2: &T) -> T = x:z(k2) { five(x, k, k2, t, t2.clone()) }')
    out.append(h)
    h = G('pubs2', 'str', 's: &str')
    h.raw('pub rule p(s2: &str) -> T = x:v() { three(x, s, s2) }')
    out.append(h)
    return out


def c11():
    g = G('quiets')
    inner = LEAVES + [opt(VAL), rep(VAL, '*'), rep(PAT, '++', LIT), slc(UNIT), choice(VAL, LIT), choice(VAL, CUS), cap(PAT), seq(LIT, UNIT), act([('x', VAL)], '? cond(x)'), rep(UNIT, '*<2,3>'), rep(LIT, '**<1,2>', LIT),
                      E(prec([[('l', 0)], [('atom', 0)]]), 'T', 'prec', True), E(prec([[('pre', 0), ('post', 2)], [('r', 3)], [('atom', 0), ('atom', 1)]], SPAN), 'T', 'prec', True)]
    qs = [quiet, amp, bang]
    for e in inner:
        for f in qs:
            q = f(e)
            g.forms(q)
            g.rule('"a" %s "b"' % pe(q))
            g.rule('"a" / %s / "b"' % pe(q))
            g.rule('("a" %s)* "b"' % pe(q))
            g.rule('%s? "b"' % q.p())
        for f, h in itertools.product(qs, qs):
            q = f(seq(LIT, h(e)))
            g.forms(q, (1, 3))
            q = f(E('"1" %s "2" / "3"' % pe(h(e)), '()', 'choice'))
            g.forms(q, (1,))
    for d in range(1, 9):
        e = E('"z"', '()', 'lit', True)
        for i in range(d):
            e = qs[i % 3](seq(E('"%d"' % i, '()', 'lit', True), e))
        g.forms(e, (1, 3))
        e = E('"z"', '()', 'lit', True)
        for i in range(d):
            e = quiet(e)
        g.forms(e, (1, 3))
    # early exits out of suppressed code
    g.rule('quiet!{ x:v() {? cond(x) } } / expected!("num")', 'T')
    g.rule('quiet!{ v()*<2> } / expected!("two")', 'Vec<T>')
    g.rule('(quiet!{ "a" v() } / "b") ** "," "c"')
    g.rule('u() ** quiet!{ "," } "c"')
    g.rule('(!"x" u())* "x"')
    g.rule('(&"x" u())+ / expected!("y") {}')
    g.rule('w(<quiet!{ v() }>)', 'T')
    g.rule('quiet!{ w(<v()>) }', 'T')
    g.rule('w(<!"x" y:v() { one(y) }>)', 'T')
    g.rule('!w(<quiet!{ x:v() "e" { one(x) } }>) "a"')
    g.rule('precedence!{ x:(@) quiet!{ "+" } y:@ { two(x, y) } -- quiet!{ "-" } x:@ { one(x) } -- !"x" n:v() { one(n) } }', 'T')
    g.rule('quiet!{ precedence!{ x:(@) "+" y:@ { two(x, y) } -- "-" x:@ { one(x) } -- n:v() { one(n) } } } "e" { mk() }', 'T')
    g.rule('$quiet!{ "a" "b" } "c" {}'.replace('$quiet!{ "a" "b" }', '$(quiet!{ "a" "b" })'))
    g.rule('quiet!{ x:v() y:#{|i, p| custom(i, p)} { two(x, y) } } / expected!("e")', 'T')
    g.raw('#[cache] rule qc() -> T = quiet!{ x:v() "a" { one(x) } } / expected!("qc")')
    g.raw('#[cache_left_rec] rule ql() -> T = x:ql() quiet!{ "+" } y:v() { two(x, y) } / quiet!{ v() } / expected!("ql")')
    g.raw('#[cache_left_rec] rule qm() -> T = x:qm() &"+" y:v() { two(x, y) } / !"a" y:v() { one(y) }')
    g.raw('pub rule qp() -> T = quiet!{ qc() } / ql() / expected!("qp")')
    h = G('quiett', 'In')
    for e in (TPAT, TINV, METH, METH1, LIT):
        for f in qs:
            h.forms(f(e))
    return [g, h]


def c12():
    out = []
    g = G('caches')
    bodies = [('', 'u()'), ('', '"a" / u() u()'), (' -> T', 'x:v() { one(x) }'), (' -> Vec<T>', 'v() ** ","'), (" -> &'input str", '$(u()+)'), (' -> Option<T>', 'v()?'), (' -> usize', 'u() p:position!() { p }'),
              (' -> T', 'x:v() {? cond(x) }'), (' -> T', 'quiet!{ v() } / expected!("x")'), (' -> T', '!"a" x:v() { one(x) }'), (' -> char', "['a'..='z']"), (' -> T', 'w(<x:v() { one(x) }>)'),
              (' -> T', prec([[('l', 0)], [('r', 2)], [('atom', 0)]])), (' -> ()', '"x"'), (' -> T', '"(" x:c2() ")" { one(x) } / v()'), (' -> (T, Vec<T>)', 'a:v() b:v()* { (a, b) }'),
              (' -> T', 'x:c2() y:c2() { two(x, y) } / x:c7() y:c8() { two(x, y) }'), ('', 'c0() c0() / c1() c0()'), ('', '&c0() !c1() c17()* c0()')]
    for i, (ret, b) in enumerate(bodies):
        g.raw('#[cache] rule c%d()%s = %s' % (i, ret, b))
    for i, (ret, b) in enumerate(bodies[:6]):
        g.raw('#[cache] pub rule pc%d()%s = %s' % (i, ret, b))
        g.raw('#[cache] #[no_eof] pub rule nc%d()%s = %s' % (i, ret, b))
    g.raw('#[cache] rule _ = " "*')
    g.raw('#[cache] rule r#type() -> T = v()')
    g.raw('rule use_all() -> T = c0() c1() x:c2() y:c3() z:c4() _ w:r#type() { four(x, y, z, w) }')
    out.append(g)
    h = G('cachei', 'In')
    h.raw('#[cache] rule a() -> Tk = [Tk::A]')
    h.raw('#[cache] rule b() -> T = x:a() y:##meth() { two(x, y) }')
    h.raw('#[cache] pub rule c() -> U = $(a() b())')
    out.append(h)
    k = G('cachea', 'str', 'k: usize, t: &T')
    k.raw('#[cache] rule a() -> T = x:v() { three(x, k, t) }')
    k.raw('#[cache] pub rule b() -> T = x:a() y:a() { four(x, y, k, t) }')
    out.append(k)
    l = G('cachel', "[&'a str]", '', "<'a>", base=False)
    l.raw("#[cache] rule a() -> &'a str = [s]")
    l.raw("#[cache] pub rule b() -> Vec<&'a str> = a() ** [\"x\"]")
    out.append(l)
    return out


def c13():
    out = []
    g = G('leftrec')
    bodies = [(' -> T', 'x:%s() "+" y:v() { two(x, y) } / v()'), (' -> T', 'x:%s() y:v() { two(x, y) } / x:%s() "!" { one(x) } / v()'), ('', '%s() "a" / "b"'), (" -> &'input str", '$(%s() "a") / $("b")'),
              (' -> T', 'x:%s()? "+" y:v() { two(x, y) } / v()'), (' -> T', '!"z" x:%s() "+" y:v() { two(x, y) } / v()'), (' -> T', 'x:%s() {? cond(x) } / v()'), (' -> Vec<T>', 'x:%s() y:v() { one(y); x } / v()+'),
              (' -> T', 'quiet!{ x:%s() "+" { one(x) } } / expected!("e")'), (' -> T', 'v()'), (' -> ()', '%s() / "x"'), ('', '&%s() "a" / "b"'), (' -> T', '"p" x:v() { one(x) } / x:%s() p:position!() "." y:v() { three(x, p, y) } / x:%s() "(" y:v() ** "," ")" { two(x, y) }')]
    for i, (ret, b) in enumerate(bodies):
        n = 'l%d' % i
        b = b.replace('%s', n)
        g.raw('#[cache_left_rec] rule %s()%s = %s' % (n, ret, b))
        g.raw('#[cache_left_rec] pub rule p%s()%s = %s' % (n, ret, b.replace(n, 'p' + n)))
    g.raw('#[cache_left_rec] rule m1() -> T = x:m2() "a" { one(x) } / v()')
    g.raw('#[cache_left_rec] rule m2() -> T = x:m1() "b" { one(x) } / x:m2() "c" { one(x) } / v()')
    g.raw('#[cache_left_rec] #[no_eof] pub rule ne() -> T = x:ne() "+" y:c() { two(x, y) } / c()')
    g.raw('#[cache] rule c() -> T = v()')
    out.append(g)
    k = G('leftreca', 'In', 'k: usize')
    k.raw('#[cache_left_rec] rule a() -> T = x:a() y:##meth() { three(x, y, k) } / v()')
    k.raw('#[cache_left_rec] pub rule b() -> T = x:b() [Tk::A] { two(x, k) } / a()')
    out.append(k)
    return out


def c29():
    """failing alternatives, optionals and repetitions that did part of their work"""
    g = G('backtrack')
    partial = ['x:v() "p" y:v() { two(x, y) }', 'x:v() y:v()+ "p" { two(x, y) }', 'x:v() y:v()**<2,> "," { two(x, y) }', 'x:v() p:position!() y:v() {? cond2(p, y) }', 'x:v()? y:v() "q" { two(x, y) }', 'v() x:$(u() v()) "r" { one(x) }',
               'x:w(<a:v() b:v() { two(a, b) }>) "s" { one(x) }', 'x:z(num()) &(v() "t") !(v() "u") y:v() { two(x, y) }', 'x:(v() / v() v()) "k" { one(x) }'.replace('v() / v() v()', 'a:v() "1" { one(a) } / a:v() b:v() { two(a, b) }'),
               'x:quiet!{ a:v() b:v() { two(a, b) } } "l" { one(x) }', 'x:%s y:v() { two(x, y) }' % prec([[('l', 0), ('post', 2)], [('atom', 0), ('atom', 1)]]), 'u() u() x:v() { one(x) }']
    for a, b in itertools.product(partial, partial):
        g.rule('%s / %s' % (a, b), 'T')
    for a in partial:
        g.rule('k:v() x:(%s)? p:position!() y:v() { four(k, x, p, y) }' % a, 'T')
        g.rule('k:v() x:(%s)* p:position!() y:v() { four(k, x, p, y) }' % a, 'T')
        g.rule('k:v() x:(%s) ** "," p:position!() y:v() { four(k, x, p, y) }' % a, 'T')
        g.rule('k:v() x:u() ** (%s) p:position!() y:v() { three(k, p, y) }'.replace('x:u()', 'u()') % a, 'T')
        g.rule('k:v() !(%s) p:position!() y:v() { three(k, p, y) }' % a, 'T')
        g.rule('k:v() x:&(%s) p:position!() y:v() { four(k, x, p, y) }' % a, 'T')
        g.rule('k:v() x:quiet!{ %s } p:position!() { three(k, x, p) } / q:position!() y:v() { two(q, y) }' % a, 'T')
        g.rule('k:v() x:$(%s) p:position!() { three(k, x, p) } / q:position!() y:v() { two(q, y) }' % a, 'T')
        g.rule('k:v() x:w(<%s>) p:position!() { three(k, x, p) } / q:position!() y:v() { two(q, y) }' % a, 'T')
        g.rule('x:(x:v() "a" { one(x) } / %s)*<2,3> y:v() { two(x, y) } / p:position!() { one(p) }' % a, 'T')
        g.rule('x:v() (%s / x:v() { one(x) }) { one(x) }' % a, 'T')
    for i in range(1, len(partial)):
        g.rule(' / '.join(partial[i:] + partial[:i]), 'T')
    g.rule(' / '.join('"%s" %s' % (chr(97 + i), 'u() ' * (i % 3)) for i in range(12)))
    return [g]


# ---------------------------------------------------------------------------
# every constructor directly inside every other one
def w1(e):
    return E('w(<%s>)' % e.t, 'T', 'call-arg', True)


def unary():
    """(family, constructor): families are the properties a constructor belongs to"""
    out = [('C03', 'opt', opt)]
    for s in ('*', '+', '*<3>', '*<2,>', '*<,2>', '*<1,3>', '*<{num()},{num()}>'):
        out.append(('C03', s, lambda e, s=s: rep(e, s)))
    for s in ('**', '++', '**<2,>', '**<,2>', '**<1,3>'):
        out.append(('C03', s, lambda e, s=s: rep(e, s, LIT)))
    out += [('C03', 'sep**', lambda e: rep(VAL, '**', e)), ('C03', 'sep++', lambda e: rep(UNIT, '++', e)), ('C03', 'sep<2,>', lambda e: rep(PAT, '**<2,>', e))]
    out += [('C04', 'amp', amp), ('C04', 'bang', bang), ('C11', 'quiet', quiet), ('C06', 'slice', slc)]
    out += [('C02', 'choice0', lambda e: choice(e, like(e))), ('C02', 'choice1', lambda e: choice(like(e), e)), ('C02', 'choice2', lambda e: choice(like(e), e, like(e)))]
    out += [('C01', 'seq0', lambda e: seq(e, LIT)), ('C01', 'seq1', lambda e: seq(LIT, e)), ('C01', 'label', cap), ('C01', 'nolabel', lambda e: act([('y', VAL), (None, e)], 'one(y)')),
            ('C01', 'cond', lambda e: act([('x', e), ('y', VAL)], '? cond2(x, y)') if e.ty and not vague(e) else act([('y', VAL), (None, e)], '? cond(y)')), ('C01', 'nocode', lambda e: E(act([(None, e)], 'nothing()').t, '()', 'action', False, e.nul))]
    out += [('C08', 'arg', lambda e: w1(e) if e.ty == 'T' else w1(cap(e)))]
    out += [('C07', 'atom', lambda e: E('precedence!{ x:(@) "+" y:@ { two(x, y) } -- %s }' % (cap(e).t if e.ty else '%s { mk() }' % pe(e)), 'T', 'prec', True)),
            ('C07', 'op', lambda e: E('precedence!{ x:(@) %s%s y:@ { three(x, %s, y) } -- n:v() { one(n) } }' % ('o:' if e.ty and not vague(e) else '', pe(e), 'o' if e.ty and not vague(e) else '0'), 'T', 'prec', True))]
    return out


def like(e):
    """another expression of the same type"""
    return {'T': VAL, 'char': PAT, '()': LIT, 'usize': POS, None: UNIT}.get(e.ty, e)


def is_loop(name):
    return name in ('*', '+', '*<2,>', '**', '++', '**<2,>', '*<{num()},{num()}>') or name.startswith('sep')


def nestings(fam, depth=2, leaves=(LIT, PAT, VAL, UNIT), step=1):
    """every chain of `depth` constructors with a member of the family, over rotating leaves, value used and unused"""
    un = unary()
    g = G('nest%d' % depth)
    i = 0
    for chain in itertools.product(un, repeat=depth):
        if fam not in [c[0] for c in chain]:
            continue
        i += 1
        if i % step:
            continue
        e = leaves[(i // step) % len(leaves)]
        ok = True
        for c in reversed(chain):
            if c[1] in ('*', '+', '*<2,>', '*<{num()},{num()}>') and e.nul:
                ok = False
                break
            if c[1] in ('sep**', 'sep++', 'sep<2,>', 'atom') and e.nul and False:
                ok = False
                break
            if c[1] in ('**', '++', '**<2,>') and e.nul:
                pass          # the separator consumes
            if c[1] == 'op' and e.nul:
                pass
            e = c[2](e)
        if ok and e.t.count('precedence!') < 2 and len(e.t) < 400:
            g.forms(e, ((0, 1), (2, 1), (1, 3))[i % 3])
    return g


def c07n():
    return [nestings('C07')]


# ---------------------------------------------------------------------------
# sizes: counts, lengths and depths around every number the translator compares with
MIX = ['v()', '"m"', "['n']", 'u()?', 'v()', '!u()', 'position!()', '&v()', 'w(<v()>)', 'quiet!{ v() }']


def word(n, multi=False):
    s = ''.join(('é∑𝄞z' if multi else 'abcdefghij')[i % (4 if multi else 10)] for i in range(n))
    return s


def sized(fam, sizes=()):
    ns = sorted(x for x in {6, 9, 13} | set(sizes) if x > 1)
    deep_ = sorted(x for x in {4, 6, 9} | set(sizes) if 1 < x <= 16)
    g = G('sized')
    out = [g]
    R = lambda n: range(n)
    if fam == 'C01':
        for n in ns:
            es = [MIX[i % 10] for i in R(n)]
            lab = ['%s%s' % ('x%d:' % i if e not in ('!u()', 'u()?') else '', e) for i, e in enumerate(es)]
            names = [l.split(':')[0] for l in lab if l.startswith('x')]
            g.rule('%s { one((%s,)) }' % (' '.join(lab), ', '.join(names)), 'T')
            g.rule(' '.join(es))
            g.rule('%s {? cond((%s,)) }' % (' '.join(lab), ', '.join(names)), 'T')
            g.rule('%s "e" { two(x, y) }' % ' '.join(['x:v()'] + es[:n - 2] + ['y:v()']), 'T')
            g.rule(' '.join('x%d:v()' % i for i in R(n)) + ' { one((%s,)) }' % ', '.join('x%d' % i for i in reversed(R(n))), 'T')
            g.rule(' '.join('u()' for i in R(n)))
            g.rule(' '.join('"%s"' % word(i % 7 + 1) for i in R(n)))
        for d in deep_:
            t = 'x:v() { one(x) }'
            for i in R(d):
                t = ('x:(%s) { two(x, %d) }' if i % 2 else 'v() x:(%s) { two(x, %d) }') % (t, i)
            g.rule(t, 'T')
            g.rule('(' * d + 'u() "a"' + ')' * d)
    elif fam == 'C02':
        for n in ns:
            g.rule(' / '.join('x:v() "%s" { two(x, %d) }' % (word(i % 5 + 1), i) for i in R(n)), 'T')
            g.rule(' / '.join('"%s"' % word(i + 1)[::-1] for i in R(n)))
            g.rule(' / '.join('"%s"' % word(n - i) for i in R(n)), '()')
            g.rule(' / '.join(('v()', 'w(<v()>)', 'z(num())')[i % 3] for i in R(n)), 'T')
            g.rule(' / '.join(('v()', 'u()', "['a']", '"b"')[i % 4] for i in R(n)) + ' "end"')
            g.rule('x:(%s) y:v() { two(x, y) }' % ' / '.join("['%s']" % word(26)[i % 10] for i in R(n)), 'T')
        for d in deep_:
            t = 'v()'
            for i in R(d):
                t = ('(%s) / z(num())' if i % 2 else 'w(<v()>) / (%s)') % t
            g.rule(t, 'T')
            g.rule(t)
    elif fam == 'C03':
        for d in [x for x in deep_ if x <= 5]:
            t = 'v()'
            for i in R(d):
                t = ('(%s)+' if i % 3 else '(%s) ++ ","') % t
            g.rule('x:%s { one(x) }' % t, 'T')
            g.rule(t)
            g.rule('(' * d + 'u()' + ')?' * d)
            g.rule('x:' + '(' * (d - 1) + 'v()?' + ')?' * (d - 1) + ' { one(x) }', 'T')
        for n in ns:
            g.rule('(%s)*' % ' '.join('u()' for _ in R(n)))
            g.rule('x:(%s)+ { one(x) }' % ' / '.join(('v()', 'w(<v()>)')[i % 2] for i in R(n)), 'T')
            g.rule(' '.join('x%d:v()%s' % (i, ('*<2>', '+', '?', '*<,3>')[i % 4]) for i in R(n)) + ' { one((%s,)) }' % ', '.join('x%d' % i for i in R(n)), 'T')
            g.rule('u() ** (%s)' % ' '.join('"%s"' % word(i + 1) for i in R(n)))
    elif fam == 'C04':
        for d in deep_:
            g.rule('x:' + '&(' * d + 'v()' + ')' * d + ' y:v() { two(x, y) }', 'T')
            g.rule('!(' * d + 'v()' + ')' * d)
            t = 'v()'
            for i in R(d):
                t = '%s("%d" %s)' % ('&!'[i % 2], i, t)
            g.rule('%s y:v() { one(y) }' % t, 'T')
        for n in ns:
            for c in '&!':
                g.rule('%s(%s) y:v() { one(y) }' % (c, ' '.join(('v()', '"a"', 'u()')[i % 3] for i in R(n))), 'T')
                g.rule('%s(%s) y:v() { one(y) }' % (c, ' / '.join('"%s"' % word(i + 1) for i in R(n))), 'T')
                g.rule(' '.join('%su()' % c for i in R(n)) + ' "z"')
    elif fam == 'C05':
        for n in sorted(set(ns) | {1, 2, 16, 17, 31, 32, 33, 64, 65}):
            for w in (word(n), word(n, True), '\\n' * n, '\\u{e9}' * n, '\\"' * n):
                g.rule('"%s"' % w)
                g.rule('x:v() "%s" y:v() { two(x, y) }' % w, 'T')
            g.rule('r##"%s"##' % ('"' + word(n)))
            g.rule("c:[%s] { one(c) }" % ' | '.join("'%s'" % chr(0x41 + i % 50 if i % 50 != 27 else 0x61) for i in R(n)), 'T')
            g.rule("[^ %s]" % ' | '.join("'%s'..='%s'" % (chr(0x3b1 + 2 * (i % 9)), chr(0x3b2 + 2 * (i % 9))) for i in R(n)), 'char')
    elif fam == 'C06':
        for n in ns:
            g.rule('$(%s)' % ' '.join(('v()', '"a"', 'u()?')[i % 3] for i in R(n)), "&'input str")
            g.rule('%s { one((%s,)) }' % (' '.join('x%d:%s' % (i, ('position!()', '$(u())', '#{|i, p| custom(i, p)}')[i % 3]) for i in R(n)), ', '.join('x%d' % i for i in R(n))), 'T')
            g.rule('$(%s)' % ' / '.join('"%s" u()' % word(i + 1) for i in R(n)), "&'input str")
        for d in deep_:
            g.rule('$(' * d + 'v()' + ')' * d, "&'input str")
            g.rule('$(' * d + 'v()' + ')' * d)
    elif fam == 'C07':
        A = [('atom', 0)]
        for n in ns:
            g.rule(prec([[(('l', 'r', 'pre', 'post')[i % 4], i)] for i in R(n)] + [A]), 'T')
            g.rule(prec([A] + [[(('l', 'r')[i % 2], i)] for i in R(n)], SPAN), 'T')
            g.rule(prec([[('l', i) for i in R(n)], A]), 'T')
            g.rule(prec([[('post', i) for i in R(n)] + [('pre', i) for i in R(n)], A]), 'T')
            g.rule(prec([[('l', 0)], [('atom', i) for i in R(n)]]), 'T')
            g.rule('precedence!{ x:(@) %s y:@ { two(x, y) } -- n:v() %s { one(n) } }' % (' '.join('"%s"' % word(i + 1) for i in R(n)), ' '.join('u()' for _ in R(n))), 'T')
            g.rule('precedence!{ x:(@) %s y:@ { one((x, y, %s)) } -- n:v() { one(n) } }' % (' '.join('o%d:v()' % i for i in R(n)), ', '.join('o%d' % i for i in R(n))), 'T')
    elif fam == 'C08':
        for n in ns:
            g.raw('rule fp%d(%s) -> T = %s { one((%s,)) }' % (n, ', '.join('a%d: rule<T>' % i for i in R(n)), ' '.join('x%d:a%d()' % (i, n - 1 - i) for i in R(n)), ', '.join('x%d' % i for i in R(n))))
            g.rule('fp%d(%s)' % (n, ', '.join('<x:%s { two(x, %d) }>' % (('v()', 'w(<v()>)')[i % 2], i) for i in R(n))), 'T')
            g.rule('fp%d(%s)' % (n, ', '.join('<v()>' for i in R(n))))
            g.raw('rule rp%d(%s) -> T = x:v() { one((x, %s)) }' % (n, ', '.join('a%d: %s' % (i, ('usize', 'T')[i % 2]) for i in R(n)), ', '.join('a%d' % i for i in reversed(R(n)))))
            g.rule('rp%d(%s)' % (n, ', '.join(('%d' % i, 'one(%d)' % i)[i % 2] for i in R(n))), 'T')
            g.raw('rule mp%d(%s) -> T = x:v() %s { one((x, %s)) }' % (n, ', '.join('a%d: %s' % (i, ('usize', 'rule<T>')[i % 2]) for i in R(n)), ' '.join('a%d()' % i for i in R(n) if i % 2), ', '.join('a%d' % i for i in R(n) if not i % 2)))
            g.rule('x:v() y:mp%d(%s) { two(x, y) }' % (n, ', '.join(('%d' % i, '<y:v() { two(&x, y) }>')[i % 2] for i in R(n))), 'T')
            g.raw('rule tp%d<%s>(%s) -> T = x:v() { one((x, %s)) }' % (n, ', '.join('X%d' % i for i in R(n)), ', '.join('a%d: X%d' % (i, i) for i in R(n)), ', '.join('a%d' % i for i in R(n))))
            g.rule('x:tp%d::<%s>(%s) { one(x) }' % (n, ', '.join(('u8', 'u16', 'char')[i % 3] for i in R(n)), ', '.join(('1', '2', "'c'")[i % 3] for i in R(n))), 'T')
            g.rule('tp%d(%s)' % (n, ', '.join(("'c'", '1u8')[i % 2] for i in R(n))))
            for i in R(n):
                g.raw('rule ch%d_%d() -> T = x:%s "%d" { two(x, %d) }' % (n, i, 'v()' if i == n - 1 else 'ch%d_%d()' % (n, i + 1), i, i))
            h = G('sizedarg%d' % n, 'str', ', '.join('k%d: %s' % (i, ('usize', '&T')[i % 2]) for i in R(n)))
            tup = ', '.join('k%d' % i for i in R(n))
            h.raw('rule q0() -> T = x:v() { one((x, %s)) }' % tup)
            h.raw('pub rule q1() -> T = x:q0() y:w(<q0()>) { one((x, y, %s)) }' % tup)
            out.append(h)
        for d in deep_:
            t = 'v()'
            for i in R(d):
                t = 'w(<x:%s { two(x, %d) }>)' % (t, i)
            g.rule(t, 'T')
            g.rule('w(<' * d + 'v()' + '>)' * d, 'T')
    elif fam == 'C09':
        for n in ns:
            g.raw('pub rule a%d(%s) -> T = x:v() { one((x, %s)) }' % (n, ', '.join('a%d: %s' % (i, ('usize', '&T')[i % 2]) for i in R(n)), ', '.join('a%d' % i for i in R(n))))
            g.raw('#[no_eof] pub rule b%d<%s>(%s) -> T = x:v() { one((x, %s)) }' % (n, ', '.join('X%d: Clone' % i for i in R(n)), ', '.join('a%d: &X%d' % (i, i) for i in R(n)), ', '.join('a%d.clone()' % i for i in R(n))))
            g.raw('pub rule s%d() = %s' % (n, ' '.join('u()' for _ in R(n))))
            h = G('sizedpub%d' % n, 'str', ', '.join('k%d: %s' % (i, ('usize', '&T')[i % 2]) for i in R(n)))
            for i in R(n):
                h.raw('%s%spub rule p%d() -> T = x:v() { one((x, %s)) }' % (('', '#[cache] ')[i // 3 % 2], ('', '#[no_eof] ')[i // 2 % 2], i, ', '.join('k%d' % i for i in R(n))))
            out.append(h)
    elif fam == 'C11':
        for d in deep_:
            for qs in (('quiet!{ %s }',), ('!(%s)',), ('&(%s)',), ('quiet!{ "a" %s }', '!("b" %s)', '&(%s "c")')):
                t = 'u()'
                for i in R(d):
                    t = qs[i % len(qs)] % t
                g.rule(t + ' "z"')
                g.rule('("a" / %s) "z"' % t)
        for n in ns:
            for q in ('quiet!{ %s }', '!(%s)', '&(%s)'):
                g.rule(q % ' '.join(('v()', '"a"', 'u()', "['b']")[i % 4] for i in R(n)) + ' "z"')
                g.rule(q % ' / '.join('"%s"' % word(i + 1) for i in R(n)) + ' "z"')
                g.rule(' '.join(q % 'u()' for i in R(n)) + ' "z"')
    elif fam == 'C12':
        for n in ns:
            h = G('sizedcache%d' % n)
            for i in R(n):
                h.raw('#[cache] rule c%d() -> T = x:%s "%d" { two(x, %d) }' % (i, ('v()', 'c%d()' % (i - 1))[i % 2], i, i))
            h.raw('pub rule top() -> T = %s { one((%s,)) }' % (' '.join('x%d:c%d()' % (i, i) for i in R(n)), ', '.join('x%d' % i for i in R(n))))
            h.raw('#[cache] rule a_rule_with_a_long_name_%s() -> T = x:v() { one(x) }' % ('x' * n))
            h.raw('#[cache] rule many() -> T = %s' % ' / '.join('x:c%d() "%s" { two(x, %d) }' % (i, word(i + 1), i) for i in R(n)))
            out.append(h)
    elif fam == 'C13':
        for n in ns:
            h = G('sizedrec%d' % n)
            h.raw('#[cache_left_rec] rule e() -> T = %s / v()' % ' / '.join('x:e() "%s" y:v() { two(x, y) }' % word(i + 1) for i in R(n)))
            h.raw('#[cache_left_rec] rule f() -> T = x:f() %s { one((x, %s)) } / v()' % (' '.join('y%d:v()' % i for i in R(n)), ', '.join('y%d' % i for i in R(n))))
            for i in R(n):
                h.raw('%srule m%d() -> T = x:m%d() "%d" { one(x) } / v()' % ('#[cache_left_rec] ', i, (i + 1) % n, i))
            out.append(h)
    elif fam == 'C29':
        for n in ns:
            g.rule(' / '.join('x:v() %s "%s" { two(x, %d) }' % ('y:v() ' * (i % 3), word(i + 1), i) for i in R(n)), 'T')
            g.rule('k:v() x:(%s "q" { one(x0) })? p:position!() y:v() { four(k, x, p, y) }' % ' '.join('x%d:v()' % i for i in R(n)), 'T')
            g.rule('k:v() x:(x:v() %s { one(x) }) ** (%s) p:position!() y:v() { four(k, x, p, y) }' % ('u() ' * n, '"," ' * n), 'T')
    return [x for x in out if x.rules]
