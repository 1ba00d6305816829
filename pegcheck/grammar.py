"""Reference reader of the documented grammar language: Rust tokens -> syntax tree.
Written from the documentation, independent of the parser in /repo."""
import re


class SyntaxErr(Exception):
    pass


class Tok:
    __slots__ = ('k', 's', 'lo', 'hi', 'joint', 'mate')

    def __init__(self, k, s, lo, hi):
        self.k, self.s, self.lo, self.hi = k, s, lo, hi
        self.joint = False
        self.mate = None


ID = re.compile(r'(?:r#)?[A-Za-z_]\w*')
NUM = re.compile(r'\d[\w]*(?:\.\d[\w]*)?(?:[eE][+-]?\d+)?')
PUNCT = set('!#$%&*+,-./:;<=>?@^|~\'')


def tokenize(src, lo=0, hi=None):
    i = lo
    n = len(src) if hi is None else hi
    toks = []
    stack = []
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            e = src.find('\n', i)
            e = n if e < 0 else e
            if src.startswith('///', i) and not src.startswith('////', i):
                t = Tok('doc', src[i + 3:e], i, e)
                toks.append(t)
            i = e
            continue
        if src.startswith('/*', i):
            d, e = 1, i + 2
            while d and e < n:
                if src.startswith('/*', e):
                    d += 1
                    e += 2
                elif src.startswith('*/', e):
                    d -= 1
                    e += 2
                else:
                    e += 1
            i = e
            continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            end = '"' + m.group(1)
            e = src.index(end, m.end()) + len(end)
            toks.append(Tok('lit', src[i:e], i, e))
            i = e
            continue
        m = re.compile(r'[bc]?"').match(src, i)
        if m:
            e = m.end()
            while src[e] != '"':
                e += 2 if src[e] == '\\' else 1
            e += 1
            toks.append(Tok('lit', src[i:e], i, e))
            i = e
            continue
        m = re.compile(r"b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^\\'])'").match(src, i)
        if m:
            toks.append(Tok('lit', m.group(), i, m.end()))
            i = m.end()
            continue
        m = ID.match(src, i)
        if m:
            toks.append(Tok('id', m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            # do not swallow range dots: 1..2
            s = m.group()
            toks.append(Tok('lit', s, i, i + len(s)))
            i += len(s)
            continue
        if c in '([{':
            t = Tok('open', c, i, i + 1)
            stack.append(len(toks))
            toks.append(t)
            i += 1
            continue
        if c in ')]}':
            if not stack:
                raise SyntaxErr('unbalanced')
            o = stack.pop()
            toks[o].mate = len(toks)
            t = Tok('close', c, i, i + 1)
            t.mate = o
            toks.append(t)
            i += 1
            continue
        if c in PUNCT:
            t = Tok('p', c, i, i + 1)
            t.joint = i + 1 < n and src[i + 1] in PUNCT
            toks.append(t)
            i += 1
            continue
        raise SyntaxErr('char %r at %d' % (c, i))
    if stack:
        raise SyntaxErr('unclosed')
    return toks


class N:
    """expression node"""

    def __init__(self, k, lo, **kw):
        self.k = k
        self.lo = lo
        self.hi = lo
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%s=%r' % (a, b) for a, b in self.__dict__.items() if a not in ('k', 'lo', 'hi')))


class Rule:
    pass


class Grammar:
    pass


KEYWORDS = ('pub', 'rule', 'use', 'type', 'where')


class Parser:
    def __init__(self, src):
        self.src = src
        self.t = tokenize(src)
        self.i = 0

    # -- primitives
    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else None

    def is_p(self, s, d=0):
        for k, c in enumerate(s):
            t = self.peek(d + k)
            if t is None or t.k != 'p' or t.s != c:
                return False
            if k < len(s) - 1 and not t.joint:
                return False
        return True

    def is_id(self, s, d=0):
        t = self.peek(d)
        return t is not None and t.k == 'id' and t.s == s

    def is_open(self, s, d=0):
        t = self.peek(d)
        return t is not None and t.k == 'open' and t.s == s

    def is_close(self, s=None, d=0):
        t = self.peek(d)
        return t is not None and t.k == 'close' and (s is None or t.s == s)

    def eat_p(self, s):
        if self.is_p(s):
            self.i += len(s)
            return True
        return False

    def eat_id(self, s):
        if self.is_id(s):
            self.i += 1
            return True
        return False

    def eat_open(self, s):
        if self.is_open(s):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            t = self.peek()
            raise SyntaxErr('expected %s at %r (offset %s)' % (what, t and t.s, t and t.lo))

    def ident(self):
        t = self.peek()
        if t is not None and t.k == 'id' and t.s not in KEYWORDS:
            self.i += 1
            return t.s
        return None

    def group(self, c):
        """whole delimited group -> (text inside, lo, hi)"""
        t = self.peek()
        if t is None or t.k != 'open' or t.s != c:
            return None
        e = self.t[t.mate]
        self.i = t.mate + 1
        return (self.src[t.hi:e.lo], t.lo, e.hi)

    def text(self, i0, i1):
        if i1 <= i0:
            return ''
        return self.src[self.t[i0].lo:self.t[i1 - 1].hi]

    def skip_type(self, stops):
        """raw Rust tokens up to a stop token at depth 0 of < > and groups"""
        i0 = self.i
        d = 0
        while self.i < len(self.t):
            t = self.t[self.i]
            if t.k == 'open':
                if d == 0 and t.s in stops:
                    break
                self.i = t.mate + 1
                continue
            if t.k == 'close':
                break
            if t.k == 'p':
                if self.is_p('->'):
                    self.i += 2
                    continue
                if t.s == '>' and d == 0:
                    break
                if d == 0 and t.s in stops:
                    break
                if t.s == '<':
                    d += 1
                elif t.s == '>':
                    d -= 1
            if t.k == 'id' and d == 0 and t.s in stops:
                break
            self.i += 1
        self.need(self.i > i0, 'type')
        return self.text(i0, self.i)

    def generic_params(self):
        """< a, b: X, ... > -> list of texts, or None"""
        if not self.is_p('<'):
            return None
        self.i += 1
        out = []
        while not self.is_p('>'):
            out.append(self.skip_type((',',)))
            if not self.eat_p(','):
                break
        self.need(self.eat_p('>'), '>')
        return out

    # -- grammar
    def grammar(self):
        g = Grammar()
        g.src = self.src
        g.doc = self.docs()
        g.vis = self.visibility()
        self.need(self.eat_id('grammar'), '`grammar`')
        g.name = self.ident()
        self.need(g.name, 'name')
        g.lifetimes = self.generic_params() or []
        self.need(self.eat_open('('), '(')
        g.args = []
        while not self.is_close():
            n = self.ident()
            self.need(n and self.eat_p(':'), 'argument')
            g.args.append((n, self.skip_type((',',))))
            if not self.eat_p(','):
                break
        self.need(self.is_close(')'), ')')
        self.i += 1
        self.need(self.eat_id('for'), '`for`')
        g.input = self.skip_type(('{',))
        self.need(self.eat_open('{'), '{')
        g.uses, g.rules = [], []
        while not self.is_close():
            if self.is_id('use'):
                i0 = self.i
                while not self.is_p(';'):
                    t = self.t[self.i]
                    self.i = t.mate + 1 if t.k == 'open' else self.i + 1
                self.i += 1
                g.uses.append(self.text(i0, self.i))
            else:
                g.rules.append(self.rule())
        self.i += 1
        self.need(self.i == len(self.t), 'end')
        return g

    def docs(self):
        out = []
        while True:
            t = self.peek()
            if t is not None and t.k == 'doc':
                out.append(t.s)
                self.i += 1
            elif self.is_p('#') and self.is_open('[', 1) and self.is_id('doc', 2):
                self.i += 1
                out.append(self.group('[')[0])
            else:
                return out

    def visibility(self):
        i0 = self.i
        if self.eat_id('pub'):
            if self.is_open('('):
                self.group('(')
            return self.text(i0, self.i)
        return None

    def attr(self, name):
        if self.is_p('#') and self.is_open('[', 1) and self.is_id(name, 2) and self.is_close(']', 3):
            self.i += 4
            return True
        return False

    def rule(self):
        r = Rule()
        r.doc = self.docs()
        r.cache = 'cache' if self.attr('cache') else 'rec' if self.attr('cache_left_rec') else None
        r.no_eof = self.attr('no_eof')
        r.vis = self.visibility()
        self.need(self.eat_id('rule'), '`rule`')
        r.name = self.ident()
        self.need(r.name, 'rule name')
        r.ty_params, r.params = None, []
        if r.name in ('_', '__', '___'):
            if self.is_open('('):
                self.group('(')
        else:
            r.ty_params = self.generic_params()
            self.need(self.eat_open('('), '(')
            while not self.is_close():
                n = self.ident()
                self.need(n and self.eat_p(':'), 'parameter')
                if self.is_id('rule') and self.is_p('<', 1):
                    self.i += 2
                    ty = self.skip_type(())
                    self.need(self.eat_p('>'), '>')
                    r.params.append((n, 'rule', ty))
                else:
                    r.params.append((n, 'rust', self.skip_type((',',))))
                if not self.eat_p(','):
                    break
            self.need(self.is_close(')'), ')')
            self.i += 1
        r.ret = None
        if self.eat_p('->'):
            r.ret = self.skip_type(('where', '='))
        r.where = None
        if self.is_id('where'):
            i0 = self.i
            self.i += 1
            if not self.is_p('='):
                self.skip_type(('=',))
            r.where = self.text(i0, self.i)
        self.need(self.eat_p('='), '=')
        r.expr = self.choice()
        self.eat_p(';')
        return r

    # -- expressions
    def lo(self):
        t = self.peek()
        return t.lo if t else len(self.src)

    def choice(self):
        lo = self.lo()
        alts = [self.sequence()]
        while self.eat_p('/'):
            alts.append(self.sequence())
        return alts[0] if len(alts) == 1 else N('choice', lo, alts=alts)

    def starts_elem(self):
        t = self.peek()
        if t is None or t.k == 'close' or t.k == 'doc':
            return False
        if t.k == 'id':
            return t.s not in KEYWORDS
        if t.k == 'lit':
            return True
        if t.k == 'open':
            return t.s in '(['
        if t.s == '#':
            return self.is_p('##') or self.is_open('{', 1)
        return t.s in '$&!@'

    def sequence(self):
        lo = self.lo()
        elems = self.elements()
        code = self.group('{')
        if code is not None:
            return N('action', lo, elems=elems, code=code)
        if len(elems) == 1:
            return elems[0][1]
        return N('action', lo, elems=elems, code=None)

    def elements(self):
        elems = []
        while self.starts_elem():
            label = None
            t = self.peek()
            if t.k == 'id' and self.is_p(':', 1) and not (self.is_p('::', 1) and self.is_p('<', 3)):
                label = t.s
                self.i += 2
            elems.append((label, self.suffixed()))
        return elems

    def suffixed(self):
        e = self.prefixed()
        lo = self.lo()
        if self.eat_p('?'):
            return N('opt', lo, e=e)
        if self.eat_p('**'):
            b = self.count()
            return N('rep', lo, e=e, min=b[0], max=b[1], sep=self.primary())
        if self.eat_p('++'):
            return N('rep', lo, e=e, min='1', max=None, sep=self.primary())
        if self.eat_p('*'):
            b = self.count()
            return N('rep', lo, e=e, min=b[0], max=b[1], sep=None)
        if self.eat_p('+'):
            return N('rep', lo, e=e, min='1', max=None, sep=None)
        return e

    def num(self):
        t = self.peek()
        if t is not None and t.k == 'lit':
            self.i += 1
            return t.s
        g = self.group('{')
        return '{%s}' % g[0] if g else None

    def count(self):
        if not self.is_p('<'):
            return (None, None)
        self.i += 1
        a = self.num()
        if self.eat_p(','):
            b = self.num()
        else:
            self.need(a, 'count')
            b = a
        self.need(self.eat_p('>'), '>')
        return (a, b)

    def prefixed(self):
        lo = self.lo()
        if self.eat_p('$'):
            return N('slice', lo, e=self.primary())
        if self.eat_p('&'):
            return N('pos', lo, e=self.primary())
        if self.eat_p('!'):
            return N('neg', lo, e=self.primary())
        return self.primary()

    def primary(self):
        lo = self.lo()
        t = self.peek()
        self.need(t is not None, 'expression')
        if t.k == 'id':
            if t.s == 'precedence' and self.is_p('!', 1) and self.is_open('{', 2):
                self.i += 3
                levels = [self.level()]
                while self.eat_p('--'):
                    levels.append(self.level())
                self.need(self.is_close('}'), '}')
                self.i += 1
                return N('prec', lo, levels=levels)
            if t.s == 'position' and self.is_p('!', 1) and self.is_open('(', 2) and self.is_close(')', 3):
                self.i += 4
                return N('position', lo)
            if t.s == 'quiet' and self.is_p('!', 1) and self.is_open('{', 2):
                self.i += 3
                e = self.choice()
                self.need(self.is_close('}'), '}')
                self.i += 1
                return N('quiet', lo, e=e)
            if t.s == 'expected' and self.is_p('!', 1) and self.is_open('(', 2):
                self.i += 2
                return N('fail', lo, code=self.group('('))
            if t.s in ('_', '__', '___'):
                self.i += 1
                return N('call', lo, name=t.s, generics='', args=[])
            name = self.ident()
            self.need(name, 'rule name')
            gen = ''
            if self.is_p('::'):
                i0 = self.i
                self.i += 2
                self.generic_params()
                gen = self.text(i0, self.i)
            self.need(self.eat_open('('), '(')
            args = []
            while not self.is_close():
                if self.is_p('<'):
                    self.i += 1
                    e = self.choice()
                    self.need(self.eat_p('>'), '>')
                    args.append(('peg', e))
                else:
                    i0 = self.i
                    while not self.is_close() and not self.is_p(','):
                        x = self.peek()
                        self.i = x.mate + 1 if x.k == 'open' else self.i + 1
                    args.append(('rust', self.text(i0, self.i)))
                if not self.eat_p(','):
                    break
            self.need(self.is_close(')'), ')')
            self.i += 1
            return N('call', lo, name=name, generics=gen, args=args)
        if t.k == 'lit':
            self.i += 1
            return N('lit', lo, s=t.s)
        if t.k == 'open' and t.s == '[':
            g = self.group('[')
            return N('pat', lo, g=g)
        if t.k == 'open' and t.s == '(':
            if self.is_p('@', 1) and self.is_close(')', 2):
                self.i += 3
                return N('marker', lo, paren=True)
            self.i += 1
            e = self.choice()
            self.need(self.is_close(')'), ')')
            self.i += 1
            return e
        if self.eat_p('@'):
            return N('marker', lo, paren=False)
        if self.is_p('##'):
            self.i += 2
            m = self.ident()
            a = self.group('(')
            self.need(m and a, 'method call')
            return N('method', lo, name=m, args=a[0])
        if self.is_p('#') and self.is_open('{', 1):
            self.i += 1
            return N('custom', lo, code=self.group('{')[0])
        self.need(False, 'expression')

    def level(self):
        ops = []
        while True:
            if self.is_close() or self.is_p('--'):
                return ops
            lo = self.lo()
            elems = self.elements()
            code = self.group('{')
            self.need(code is not None, 'action')
            ops.append((elems, code[0], lo))


def parse(src):
    try:
        return Parser(src).grammar()
    except (IndexError, AttributeError, TypeError) as e:
        raise SyntaxErr('ends early (%s)' % e)
