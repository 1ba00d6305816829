"""What the macro must report for a grammar it cannot read: the documented meaning of grammars and of error reports applied to
the grammar of grammars in /repo (read by grammar.py), over the tokens of a malformed text. Nothing of /repo is run."""
import re, sys
from . import grammar

OPEN = {'(': ('(', ')'), '[': ('[', ']'), '{': ('{', '}')}
METH = re.compile(r'\s*\|\s*(\w+)\s*,\s*(\w+)\s*\|\s*\1\s*\.\s*(\w+)\s*\(\s*\2\s*(?:,\s*(.*?)\s*)?\)\s*$', re.S)
DELIM = {'Delimiter::Parenthesis': '(', 'Delimiter::Brace': '{', 'Delimiter::Bracket': '['}


class Undecided(Exception):
    pass


def text_of(lit):
    m = re.match(r'(?:r(#*))?"(.*)"#*$', lit, re.S)
    if not m or (m.group(1) is None and '\\' in m.group(2)):
        raise Undecided('literal ' + lit)
    return m.group(2)


class Reader:
    def __init__(self, g):
        self.g = g
        self.rules = {}
        for r in g.rules:
            self.rules.setdefault(r.name, r)
        ps = [r for r in g.rules if r.vis is not None and not r.params]
        if len(ps) != 1 or g.input.strip() != 'FlatTokenStream':
            raise Undecided('the grammar of grammars has another form')
        self.start = ps[0]

    def parse(self, toks):
        """None, or (index of the token or None for the end, set of what was expected)"""
        self.t = toks
        self.marks = {}
        self.off = 0
        self.memo = {}
        p = self.rule(self.start, 0)
        if p is not None and p < len(toks):
            self.mark(p, 'EOF')
        elif p is not None:
            return None
        m = max(self.marks, default=0)
        return (m if m < len(toks) else None, self.marks.get(m, set()))

    def mark(self, p, what):
        if not self.off:
            self.marks.setdefault(p, set()).add(what)

    def rule(self, r, p):
        if r.cache == 'rec' or r.params:
            raise Undecided('rule ' + r.name)
        if r.cache:
            if (r.name, p) not in self.memo:
                self.memo[r.name, p] = self.ev(r.expr, p)
            return self.memo[r.name, p]
        return self.ev(r.expr, p)

    def literal(self, p, s):
        while True:
            t = self.t[p] if p < len(self.t) else None
            if t is None:
                return None
            if t.k in ('id', 'open', 'close'):
                return p + 1 if t.s == s else None
            if t.k != 'p' or not s or t.s != s[0]:
                return None
            p += 1
            if len(s) == 1:
                return p
            if not t.joint:
                return None
            s = s[1:]

    def custom(self, code, p):
        m = METH.match(code)
        if not m:
            raise Undecided('embedded matcher ' + code)
        f, a = m.group(3), m.group(4)
        t = self.t[p] if p < len(self.t) else None
        if f == 'next_span':
            return p if t else None
        if f == 'ident':
            return p + 1 if t and t.k == 'id' else None
        if f == 'literal':
            return p + 1 if t and t.k == 'lit' else None
        if f == 'group' and a in DELIM:
            return t.mate + 1 if t and t.k == 'open' and t.s == DELIM[a] else None
        if f == 'eat_until' and re.match(r"'.'$", a or ''):
            q = p
            while q < len(self.t):
                t = self.t[q]
                if t.k == 'close' or t.k == 'p' and t.s == a[1]:
                    break
                q = t.mate + 1 if t.k == 'open' else q + 1
            return q if q > p else None
        raise Undecided('embedded matcher ' + code)

    def ev(self, e, p):
        k = e.k
        if k == 'lit':
            q = self.literal(p, text_of(e.s))
            if q is None:
                self.mark(p, e.s)
            return q
        if k == 'call':
            r = self.rules.get(e.name)
            if r is None or e.args:
                raise Undecided('call of ' + e.name)
            return self.rule(r, p)
        if k == 'action':
            if e.code and e.code[0].lstrip().startswith('?'):
                raise Undecided('conditional action')
            for _, x in e.elems:
                p = self.ev(x, p)
                if p is None:
                    return None
            return p
        if k == 'choice':
            for x in e.alts:
                q = self.ev(x, p)
                if q is not None:
                    return q
            return None
        if k == 'opt':
            q = self.ev(e.e, p)
            return p if q is None else q
        if k in ('pos', 'neg', 'quiet'):
            self.off += 1
            q = self.ev(e.e, p)
            self.off -= 1
            return q if k == 'quiet' else (p if (q is not None) == (k == 'pos') else None)
        if k == 'slice':
            return self.ev(e.e, p)
        if k == 'rep':
            lo, hi = (int(x) if x else d for x, d in ((e.min, 0), (e.max, 1 << 30)))
            n = 0
            while n < hi:
                q = p
                if n and e.sep is not None:
                    q = self.ev(e.sep, q)
                    if q is None:
                        break
                q = self.ev(e.e, q)
                if q is None:
                    break
                p = q
                n += 1
            return p if n >= lo else None
        if k == 'fail':
            self.mark(p, text_of(e.code[0].strip()))
            return None
        if k == 'position':
            return p
        if k == 'custom':
            return self.custom(e.code, p)
        raise Undecided('expression ' + k)


def said(exp):
    if not exp:
        return '<unreported>'
    xs = sorted(exp)
    return xs[0] if len(xs) == 1 else 'one of ' + ', '.join(xs)


# texts without documentation comments; every optional part of the syntax somewhere
BASES = [
    "pub grammar g<'a, 'b>(n: u8, m: &'a str) for [u8] { use a::b; use crate::c::*; use d::{e, f as h}; use k as l; }",
    'grammar g() for str { pub rule r() -> u8 = "a" { 1 } ; rule q() = "b" rule _ = " " rule __() = "  " }',
    'grammar g() for a::B<u8, \'c> { #[cache] #[no_eof] pub(crate) rule r<T: X + \'a + ?Sized, \'b: \'c, U>(n: T, f: rule<U>,) -> Vec<(T, U)> where T: Y, for<\'q> U: Z<\'q> = f() }',
    'grammar g() for str { #[cache_left_rec] rule r() = #[no_eof] }',
    'grammar g() for str { #[doc = "x"] #[cache] rule r() -> (u8, &\'static mut str) = x:"a" y:r() z:(b:"c" { b }) w:_ { x } / !"q" &"p" $"s" {? Ok(1) } / { 0 } }',
    'grammar g() for str { rule r() = "a"? "b"* "c"+ "d"*<2> "e"*<{n},3> "f"*<,4> "g"*<5,> "h" ** "," "i" **<2,3> _ "j" ++ ("k" / "l") ; rule s() = }',
    'grammar g() for str { rule r() -> u8 = precedence!{ x:(@) "+" y:@ { 1 } x:@ "-" y:(@) { 2 } -- "-" v:@ { 3 } -- n:num() { n } "(" v:r() ")" { v } } }',
    'grammar g() for str { rule r() = position!() quiet!{ "a" / quiet!{ "b" } } expected!("c") / [\'a\'..=\'z\'] ##m(1) #{|i, p| x} f(1, <"a" / "b">, g.h(2)) f::<u8, \'a>(<v()>) r#type() }',
    'grammar g() for dyn A + B { rule r() -> impl C<D, 1, {2}> + \'a = "x" rule s(f: fn(u8) -> u8) -> <T as U>::V = "y" rule t(x: [u8; 4], y: &mut dyn Fn(u8) -> u8) = "z" }',
]
WRONG = ('%', 'zz', '1', '"w"', '(x)', '{ y }', '[z]', ',', '*', ':')


def variants():
    """malformed relatives of the bases: cut off, a token less, another token, one more, two exchanged"""
    seen = set()

    def out(t):
        t = re.sub(r'[ \n]+', ' ', t)
        if t not in seen:
            seen.add(t)
            yield t
    for b in BASES:
        ts = grammar.tokenize(b)
        quote = {i + 1 for i, t in enumerate(ts) if t.k == 'p' and t.s == "'"}
        for i, t in enumerate(ts):
            # cut off here, inside each of the groups around
            if i not in quote:
                closing, o = '', []
                for x in ts[:i]:
                    o = o + [x] if x.k == 'open' else o[:-1] if x.k == 'close' else o
                yield from out(b[:t.lo] + ' ' + ''.join({'(': ')', '[': ']', '{': '}'}[x.s] for x in reversed(o)))
                if t.k != 'close':
                    # and only the rest of this group
                    end = ts[o[-1].mate].lo if o else len(b)
                    yield from out(b[:t.lo] + ' ' + b[end:])
            if i in quote or i + 1 in quote:
                continue
            w = [WRONG[(i + k) % len(WRONG)] for k in (0, 3, 7)]
            for x in w + ['%', ',']:
                yield from out(b[:t.lo] + ' ' + x + ' ' + b[t.lo:])
            if t.k == 'close':
                continue
            hi = ts[t.mate].hi if t.k == 'open' else t.hi
            for x in ['', w[1], 'rule', ';']:
                yield from out(b[:t.lo] + ' ' + x + ' ' + b[hi:])
            # exchanged with the next one
            nx = i + 1 if t.k != 'open' else t.mate + 1
            if nx < len(ts) and ts[nx].k != 'close' and nx + 1 not in quote:
                nh = ts[ts[nx].mate].hi if ts[nx].k == 'open' else ts[nx].hi
                yield from out(b[:t.lo] + ' ' + b[ts[nx].lo:nh] + ' ' + b[t.lo:hi] + ' ' + b[nh:])


def reports(src):
    """[(text, lo, hi, message)] for the malformed ones; lo None for the end of the text"""
    sys.setrecursionlimit(20000)
    rd = Reader(grammar.parse(src))
    out, good = [], 0
    for v in variants():
        try:
            ts = grammar.tokenize(v)
        except grammar.SyntaxErr:
            continue
        r = rd.parse(ts)
        if r is None:
            good += 1
            continue
        i, exp = r
        if i is None:
            out.append((v, None, None, 'expected %s at end of input' % said(exp)))
            continue
        t = ts[i]
        lo, hi = t.lo, t.hi
        # a delimiter stands for its whole group
        if t.k == 'open':
            hi = ts[t.mate].hi
        elif t.k == 'close':
            lo = ts[t.mate].lo
        elif t.s == "'":
            hi = ts[i + 1].hi
        out.append((v, lo, hi, 'expected ' + said(exp)))
    return out, good
