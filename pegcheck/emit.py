"""Reference semantics: emits, for a grammar, straightforward Rust code that does exactly what the
documentation says.  The code is only type-checked and lowered to MIR; it is the B side of the product
analysis."""
import re

IN, ST, ER = 'b_in', 'b_st', 'b_er'
M = '::peg::RuleResult::Matched'
F = '::peg::RuleResult::Failed'


def rstr(s):
    n = 1
    while '"' + '#' * n in s:
        n += 1
    return 'r%s"%s"%s' % ('#' * n, s, '#' * n)


class Emit:
    def __init__(self, g, trace=False):
        self.g = g
        self.trace = trace
        self.n = 0
        self.rules = {}
        for r in g.rules:
            self.rules.setdefault(r.name, r)

    def v(self, p='b'):
        self.n += 1
        return '%s_%d' % (p, self.n)

    # ---- expressions: Rust expression of type RuleResult<T>
    def unit(self, e, P):
        """value discarded"""
        if e.k == 'choice':
            return self.choice(e, P, self.unit)
        if e.k == 'fail':
            return '{ %s.mark_failure(%s, (%s)); %s::<()> }' % (ER, P, e.code[0], F)
        n = self.v('n')
        return 'match %s { %s(%s, _) => %s(%s, ()), %s => %s }' % (self.expr(e, P, self.unit), M, n, M, n, F, F)

    def choice(self, e, P, sub):
        out = sub(e.alts[-1], P)
        for a in reversed(e.alts[:-1]):
            n, v = self.v('n'), self.v('v')
            out = 'match %s { %s(%s, %s) => %s(%s, %s), %s => { %s } }' % (sub(a, P), M, n, v, M, n, v, F, out)
        return out

    def elem(self, e, P, label, k):
        """element of a sequence followed by continuation k(position)"""
        n = self.v('n')
        if e.k == 'pat':
            c = label or self.v('c')
            return self.pattern(e, P, n, c, k(n))
        if label is None:
            x = self.unit(e, P)
            return 'match %s { %s(%s, _) => { %s } %s => %s }' % (x, M, n, k(n), F, F)
        x = self.expr(e, P)
        return 'match %s { %s(%s, %s) => { %s } %s => %s }' % (x, M, n, label, k(n), F, F)

    def pattern(self, e, P, n, c, ok):
        text = e.g[0]
        mark = '{ %s.mark_failure(%s, %s); %s }' % (ER, P, rstr('[' + text + ']'), F)
        body = text.strip()
        if body.startswith('^'):
            arms = '%s => %s, _ => { %s }' % (body[1:], mark, ok)
        else:
            arms = '%s => { %s } _ => %s' % (body, ok, mark)
        return 'match ::peg::ParseElem::parse_elem(%s, %s) { %s(%s, %s) => match %s { %s }, %s => %s }' % (IN, P, M, n, c, c, arms, F, mark)

    def seq(self, elems, P, k):
        if not elems:
            return k(P)
        (label, e), rest = elems[0], elems[1:]
        return self.elem(e, P, label, lambda n: self.seq(rest, n, k))

    def expr(self, e, P, sub=None):
        """sub: how to emit an operand whose value becomes part of this value"""
        k = e.k
        sub = sub or self.expr
        if k == 'lit':
            n = self.v('n')
            return 'match ::peg::ParseLiteral::parse_string_literal(%s, %s, %s) { %s(%s, ()) => %s(%s, ()), %s => { %s.mark_failure(%s, %s); %s } }' % (
                IN, P, e.s, M, n, M, n, F, ER, P, rstr(e.s), F)
        if k == 'pat':
            n, c = self.v('n'), self.v('c')
            return self.pattern(e, P, n, c, '%s(%s, %s)' % (M, n, c))
        if k == 'call':
            if e.name in self.params:
                return '(%s)(%s, %s, %s, %s)' % (e.name, IN, ST, ER, P)
            args = [IN, ST, ER, P] + [a for a, _ in self.g.args]
            for kind, a in e.args:
                if kind == 'rust':
                    args.append(a)
                else:
                    p = self.v('p')
                    args.append('|%s, %s, %s, %s| { %s }' % (IN, ST, ER, p, self.expr(a, p)))
            return '__parse_%s%s(%s)' % (raw(e.name), e.generics, ', '.join(args))
        if k == 'method':
            return '%s.%s(%s, %s)' % (IN, e.name, P, e.args)
        if k == 'custom':
            return '::peg::call_custom_closure((%s), %s, %s)' % (e.code, IN, P)
        if k == 'choice':
            return self.choice(e, P, self.expr)
        if k == 'opt':
            n, v = self.v('n'), self.v('v')
            return 'match %s { %s(%s, %s) => %s(%s, Some(%s)), %s => %s(%s, None) }' % (sub(e.e, P), M, n, v, M, n, v, F, M, P)
        if k == 'rep':
            vals, cur, n, v, st, i, q = (self.v('vals'), self.v('cur'), self.v('n'), self.v('v'), self.v('s'), self.v('n'), self.v('q'))
            mx = 'if %s.len() >= %s { break }' % (vals, e.max) if e.max is not None else ''
            if e.sep is not None:
                sep = 'let %s = if %s.is_empty() { %s } else { match %s { %s(%s, _) => %s, %s => break } };' % (
                    st, vals, q, self.unit(e.sep, q), M, i, i, F)
            else:
                sep = 'let %s = %s;' % (st, q)
            res = '%s(%s, %s)' % (M, cur, vals)
            if e.min is not None:
                res = 'if %s.len() >= %s { %s } else { %s }' % (vals, e.min, res, F)
            return ('{ let mut %s = ::std::vec::Vec::new(); let mut %s = %s; loop { %s let %s = %s; %s '
                    'match %s { %s(%s, %s) => { %s.push(%s); %s = %s; } %s => break } } %s }') % (
                vals, cur, P, mx, q, cur, sep, sub(e.e, st), M, n, v, vals, v, cur, n, F, res)
        if k in ('pos', 'neg', 'quiet'):
            r, v = self.v('r'), self.v('v')
            body = self.unit(e.e, P) if k == 'neg' else sub(e.e, P)
            head = '{ %s.suppress_fail += 1; let %s = %s; %s.suppress_fail -= 1; ' % (ER, r, body, ER)
            if k == 'quiet':
                return head + r + ' }'
            if k == 'pos':
                return head + 'match %s { %s(_, %s) => %s(%s, %s), %s => %s } }' % (r, M, v, M, P, v, F, F)
            return head + 'match %s { %s(..) => %s, %s => %s(%s, ()) } }' % (r, M, F, F, M, P)
        if k == 'slice':
            n = self.v('n')
            return 'match %s { %s(%s, _) => %s(%s, ::peg::ParseSlice::parse_slice(%s, %s, %s)), %s => %s }' % (
                self.unit(e.e, P), M, n, M, n, IN, P, n, F, F)
        if k == 'position':
            return '%s(%s, %s)' % (M, P, P)
        if k == 'fail':
            return '{ %s.mark_failure(%s, (%s)); %s }' % (ER, P, e.code[0], F)
        if k == 'action':
            return self.seq(e.elems, P, lambda n: self.action(e.code, n))
        if k == 'prec':
            return self.prec(e, P)
        raise ValueError(k)

    def action(self, code, n):
        if code is None:
            return '%s(%s, ())' % (M, n)
        t = code[0].strip()
        if t.startswith('?'):
            v, x = self.v('v'), self.v('e')
            return 'match (|| { %s })() { Ok(%s) => %s(%s, %s), Err(%s) => { %s.mark_failure(%s, %s); %s } }' % (
                t[1:], v, M, n, v, x, ER, n, x, F)
        return '%s(%s, (|| { %s })())' % (M, n, code[0])

    def prec(self, e, P):
        p, mn, left, rec, lp = self.v('p'), self.v('min'), self.v('left'), self.v('rec'), self.v('lp')
        atoms, post = [], []
        cap = None

        def act(code, end):
            a = '(|| { %s })()' % code
            if cap is not None:
                a = '(|%s, %s, %s| { %s })(%s, %s, %s)' % (cap[0], cap[1], cap[2], cap[3], lp, a, end)
            return a
        for lvl, ops in enumerate(e.levels):
            lp_ops = []
            for elems, code, _ in ops:
                l, r = elems[0], elems[-1]
                lm, rm = l[1].k == 'marker', r[1].k == 'marker'
                if len(elems) == 3 and l[1].k == 'position' and r[1].k == 'position':
                    cap = (l[0] or '_', elems[1][0] or '_', r[0] or '_', code)
                    continue
                if lm and rm and len(elems) >= 3:
                    # the parenthesised side may contain operators of the same level
                    nm = lvl if r[1].paren else lvl + 1

                    def k(n, code=code, l=l, r=r, nm=nm):
                        n2 = self.v('n')
                        return 'match %s(%s, %di32, %s, %s) { %s(%s, %s) => { let %s = %s; return ::core::result::Result::Ok((%s, %s)); } %s => %s::<()> }' % (
                            rec, n, nm, ST, ER, M, n2, r[0] or '_', l[0] or '_', left, n2, act(code, n2), F, F)
                    lp_ops.append(self.seq(elems[1:-1], p, k))
                elif lm and len(elems) >= 2:
                    def k(n, code=code, l=l):
                        return '{ let %s = %s; return ::core::result::Result::Ok((%s, %s)); }' % (l[0] or '_', left, n, act(code, n))
                    lp_ops.append(self.seq(elems[1:], p, k))
                elif rm and len(elems) >= 2:
                    nm = lvl if r[1].paren else lvl + 1

                    def k(n, code=code, r=r, nm=nm):
                        n2 = self.v('n')
                        return 'match %s(%s, %di32, %s, %s) { %s(%s, %s) => return %s(%s, %s), %s => %s::<()> }' % (
                            rec, n, nm, ST, ER, M, n2, r[0] or '_', M, n2, act(code, n2), F, F)
                    atoms.append(self.seq(elems[:-1], lp, k))
                else:
                    def k(n, code=code):
                        return 'return %s(%s, %s)' % (M, n, act(code, n))
                    atoms.append(self.seq(elems, lp, k))
            if lp_ops:
                post.append('if %s <= %di32 { %s }' % (mn, lvl, ' '.join('let _: ::peg::RuleResult<()> = %s;' % o for o in lp_ops)))
        return ('::peg::%s(%s, %s, 0, %s, &|%s, %s, %s, %s| { %s %s }, '
                '&|%s, %s, %s, %s, %s, %s, %s| { %s ::core::result::Result::Err(%s) })') % (
            'climb_traced' if self.trace else 'climb', ST, ER, P, lp, ST, ER, rec, ' '.join('let _: ::peg::RuleResult<()> = %s;' % a for a in atoms), F,
            p, lp, mn, left, ST, ER, rec, ' '.join(post), left)

    # ---- items
    def gl(self):
        return ', '.join(self.g.lifetimes)

    def generics(self, r):
        xs = ["'input"] + self.g.lifetimes + (r.ty_params or [])
        return '<%s>' % ', '.join(xs)

    def input_ty(self):
        return "&'input Input<%s>" % self.gl()

    def state_ty(self):
        return "ParseState<%s>" % ', '.join(["'input"] + self.g.lifetimes)

    def params_def(self, r):
        out = ['%s: %s' % a for a in self.g.args]
        for n, kind, ty in r.params:
            if kind == 'rust':
                out.append('%s: %s' % (n, ty))
            else:
                out.append('%s: impl Fn(%s, &mut %s, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<%s>' % (
                    n, self.input_ty(), self.state_ty(), ty))
        return out

    def rule(self, r):
        self.params = {n for n, _, _ in r.params}
        ret = r.ret or '()'
        P = 'b_pos'
        body = self.expr(r.expr, P) if r.ret else self.unit(r.expr, P)
        c = '%s.%s_cache' % (ST, raw(r.name))
        hit = ''
        if self.trace:
            # what the documentation of tracing promises: each attempt and its outcome
            at = '::peg::Parse::position_repr(%s, %s)' % (IN, P)
            body = ('{{ let b_at = {at}; ::std::println!("[PEG_TRACE] Attempting to match rule `{n}` at {{}}", b_at); let b_traced: ::peg::RuleResult<{ret}> = {{ {body} }}; '
                    'match &b_traced {{ {M}(b_e, _) => {{ let b_to = ::peg::Parse::position_repr({IN}, *b_e); ::std::println!("[PEG_TRACE] Matched rule `{n}` at {{}} to {{}}", b_at, b_to); }} '
                    '{F} => ::std::println!("[PEG_TRACE] Failed to match rule `{n}` at {{}}", b_at) }} b_traced }}').format(at=at, n=r.name, ret=ret, body=body, M=M, F=F, IN=IN)
            hit = ('let b_at = {at}; match b_hit {{ {M}(..) => ::std::println!("[PEG_TRACE] Cached match of rule `{n}` at {{}}", b_at), '
                   '{F} => ::std::println!("[PEG_TRACE] Cached fail of rule `{n}` at {{}}", b_at) }} ').format(at=at, n=r.name, M=M, F=F)
        if r.cache == 'cache':
            body = ('if let Some(b_hit) = %s.get(&%s) { @HIT@return b_hit.clone(); } let b_res: ::peg::RuleResult<%s> = { %s }; '
                    '%s.insert(%s, b_res.clone()); b_res') % (c, P, ret, body, c, P)
        elif r.cache == 'rec':
            body = ('if let Some(b_hit) = {c}.get(&{P}) {{ @HIT@return b_hit.clone(); }} {c}.insert({P}, {F}); '
                    'let mut b_best: ::peg::RuleResult<{ret}> = {F}; '
                    'loop {{ let b_try: ::peg::RuleResult<{ret}> = {{ {body} }}; '
                    'let b_end = match b_try {{ {M}(b_e, _) => b_e, {F} => return b_best }}; '
                    'if let {M}(b_old, _) = b_best {{ if b_end <= b_old {{ return b_best; }} }} '
                    '{c}.insert({P}, b_try.clone()); b_best = b_try; }}').format(c=c, P=P, F=F, M=M, ret=ret, body=body)
        body = body.replace('@HIT@', hit, 1) if r.cache else body
        args = ['%s: %s' % (IN, self.input_ty()), '%s: &mut %s' % (ST, self.state_ty()),
                '%s: &mut ::peg::error::ErrorState' % ER, P + ': usize'] + self.params_def(r)
        out = 'fn __parse_%s%s(%s) -> ::peg::RuleResult<%s> %s { %s }\n' % (
            raw(r.name), self.generics(r), ', '.join(args), ret, r.where or '', body)
        if r.vis is not None:
            out += self.export(r, ret)
        return out

    def export(self, r, ret):
        call = '__parse_%s(%s, &mut b_state, &mut b_err, ::peg::Parse::start(%s)%s)' % (
            raw(r.name), IN, IN, ''.join(', ' + n for n, in [(a,) for a, _ in self.g.args] + [(p[0],) for p in r.params]))
        eof = 'true' if r.no_eof else '::peg::Parse::is_eof(%s, b_end)' % IN
        args = ['%s: %s' % (IN, self.input_ty())] + self.params_def(r)
        return ('%s fn %s%s(%s) -> ::core::result::Result<%s, ::peg::error::ParseError<PositionRepr<%s>>> %s { '
                'let mut b_err = ::peg::error::ErrorState::new(::peg::Parse::start(%s)); let mut b_state = ParseState::new(); '
                'if let %s(b_end, b_val) = %s { if %s { return Ok(b_val); } b_err.mark_failure(b_end, "EOF"); } '
                'b_state = ParseState::new(); b_err.reparse_for_error(); '
                'if let %s(b_end, b_val) = %s { if %s { panic!() } b_err.mark_failure(b_end, "EOF"); } '
                'Err(b_err.into_parse_error(%s)) }\n') % (
            r.vis, r.name, self.generics(r), ', '.join(args), ret, self.gl(), r.where or '', IN, M, call, eof, M, call, eof, IN)

    def module(self):
        g = self.g
        out = ['%s mod %s {' % (g.vis or '', g.name), 'use super::*;', "type Input<%s> = %s;" % (self.gl(), g.input),
               "type PositionRepr<%s> = <Input<%s> as ::peg::Parse>::PositionRepr;" % (self.gl(), self.gl())]
        out += g.uses
        fields = [(raw(r.name) + '_cache', r.ret or '()') for r in g.rules if r.cache]
        lts = ["'input"] + g.lifetimes
        ph = ', '.join(['&%s ()' % l for l in lts])
        out.append('pub struct ParseState<%s> { _phantom: ::core::marker::PhantomData<(%s,)>, %s }' % (
            ', '.join(lts), ph, ', '.join('%s: ::std::collections::HashMap<usize, ::peg::RuleResult<%s>>' % f for f in fields)))
        out.append("impl<%s> ParseState<%s> { fn new() -> Self { ParseState { _phantom: ::core::marker::PhantomData, %s } } }" % (
            ', '.join(lts), ', '.join(lts), ', '.join('%s: ::std::collections::HashMap::new()' % n for n, _ in fields)))
        seen = set()
        for r in g.rules:
            if r.name in seen:
                continue
            seen.add(r.name)
            out.append(self.rule(r))
        out.append('}')
        return '\n'.join(out)


def raw(n):
    return n[2:] if n.startswith('r#') else n


def emit(g, trace=False):
    return Emit(g, trace).module()
