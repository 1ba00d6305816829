"""Compile witnesses: generated grammars whose acceptance or rejection by the translator is known beforehand.
Only the compiler's diagnostics are read; nothing that is built is run."""
import bisect, re
from . import build


class Diag:
    def __init__(self, m, spans):
        self.msg = m['message']
        self.code = m.get('code')
        self.level = m['level']
        self.spans = spans          # [(lo, hi)] offsets into the witness text, primary ones
        self.rendered = m['rendered']


class Batch:
    """witness texts compiled together; diagnostics are assigned to the text they point into"""

    def __init__(self, name, texts, prelude='', mods=True, features=(), nodefault=False, expand=False, edition='2021', bare=False):
        self.edition, self.bare = edition, bare
        self.name, self.texts = name, texts
        src = '#![allow(warnings)]\n' + prelude + '\n'
        self.at = []
        for i, t in enumerate(texts):
            src += 'pub mod w%d { use super::*;\n' % i if mods else ''
            self.at.append(len(src))
            src += t + ('\n}\n' if mods else '\n')
        self.src = src
        self.features, self.nodefault, self.expand = features, nodefault, expand
        lines = [0]
        for l in src.split('\n'):
            lines.append(lines[-1] + len(l) + 1)
        self.lines = lines
        self.stray = []
        self.by = {}

    def offset(self, line, col):
        return self.lines[line - 1] + col - 1

    def run(self):
        self.ok, ms, self.facts = build.wit('wit_' + self.name, {'src/lib.rs': self.src}, self.features, self.nodefault, expand=self.expand, edition=self.edition, bare=self.bare)
        for m in ms:
            if m['level'] not in ('error', 'error: internal compiler error') or m['message'].startswith('aborting due'):
                continue
            sp = [(self.offset(s['line_start'], s['column_start']), self.offset(s['line_end'], s['column_end']))
                  for s in sorted(m['spans'], key=lambda s: not s['is_primary']) if s['is_primary'] and s['file_name'].endswith('src/lib.rs')]
            if not sp or m['crate'] != 'wit_' + self.name:
                self.stray.append(m)
                continue
            i = bisect.bisect_right(self.at, sp[0][0]) - 1
            if i < 0:
                self.stray.append(m)
                continue
            b = self.at[i]
            self.by.setdefault(i, []).append(Diag(m, [(x - b, y - b) for x, y in sp]))
        return self

    def diags(self, i):
        return self.by.get(i, [])

    def report_stray(self, ctx):
        for m in self.stray[:6]:
            ctx.violation('does not build: ' + m['message'], 'error outside every witness grammar: ' + m['rendered'])
        return bool(self.stray)


# ---- reference analyses on the syntax tree read by grammar.py ---------------------------
def empty_lit(s):
    return re.match(r'r?(#*)""\1$', s) is not None


class Static:
    """What the definition of the analyses says about one grammar."""

    def __init__(self, g):
        self.rules = {}
        for r in g.rules:
            self.rules.setdefault(r.name, r)
        self.order = g.rules
        # least fixpoint of: matches without consuming input
        self.null = {n: False for n in self.rules}
        while True:
            new = {n: self.nullable(r.expr, r) for n, r in self.rules.items()}
            if new == self.null:
                break
            self.null = new

    def seq_nullable(self, es, r):
        return all(self.nullable(e, r) for e in es)

    def nullable(self, e, r):
        k = e.k
        if k == 'call':
            if any(p[0] == e.name for p in r.params):
                return False
            return self.null.get(e.name, False)
        if k == 'lit':
            return empty_lit(e.s)
        if k == 'action':
            return self.seq_nullable([x for _, x in e.elems], r)
        if k == 'choice':
            return any(self.nullable(x, r) for x in e.alts)
        if k in ('opt', 'pos', 'neg', 'position'):
            return True
        if k == 'rep':
            return e.min is None or self.nullable(e.e, r)
        if k in ('slice', 'quiet'):
            return self.nullable(e.e, r)
        if k == 'prec':
            return any(self.seq_nullable([x for _, x in op[0]], r) for lv in e.levels for op in lv)
        return False

    # calls reached before anything was consumed
    def first(self, e, r, out):
        """collects calls; returns nullability"""
        k = e.k
        if k == 'call':
            if not any(p[0] == e.name for p in r.params) and e.name in self.rules:
                out.append(e)
        elif k == 'action':
            self.first_seq([x for _, x in e.elems], r, out)
        elif k == 'choice':
            for x in e.alts:
                self.first(x, r, out)
        elif k in ('opt', 'pos', 'neg', 'slice', 'quiet'):
            self.first(e.e, r, out)
        elif k == 'rep':
            self.first(e.e, r, out)
            if e.sep is not None and self.nullable(e.e, r):
                self.first(e.sep, r, out)
        elif k == 'prec':
            for lv in e.levels:
                for op in lv:
                    self.first_seq([x for _, x in op[0]], r, out)

    def first_seq(self, es, r, out):
        for x in es:
            self.first(x, r, out)
            if not self.nullable(x, r):
                return

    def cycles(self):
        """(calls that may close an unresolved cycle, groups of calls of which one must be reported)"""
        edges = []
        for n, r in self.rules.items():
            out = []
            self.first(r.expr, r, out)
            edges += [(n, c.name, c) for c in out]
        self.edges = {}
        for a, b, _ in edges:
            self.edges.setdefault(a, set()).add(b)
        comp = sccs(self.rules, [(a, b) for a, b, _ in edges])
        plain = {n for n, r in self.rules.items() if r.cache != 'rec'}
        may = [c for a, b, c in edges if comp[a] == comp[b] and b in plain]
        pe = [(a, b, c) for a, b, c in edges if a in plain and b in plain]
        pc = sccs(plain, [(a, b) for a, b, _ in pe])
        groups = {}
        for a, b, c in pe:
            if pc[a] == pc[b]:
                groups.setdefault(pc[a], []).append(c)
        return may, list(groups.values())

    # loops
    def loops(self):
        bad = []
        for r in self.order:
            self.walk(r.expr, r, bad)
        return bad

    def walk(self, e, r, bad):
        k = e.k
        if k == 'call':
            if not any(p[0] == e.name for p in r.params):
                for kind, a in e.args:
                    if kind == 'peg':
                        self.walk(a, r, bad)
        elif k == 'action':
            for _, x in e.elems:
                self.walk(x, r, bad)
        elif k == 'choice':
            for x in e.alts:
                self.walk(x, r, bad)
        elif k in ('opt', 'pos', 'neg', 'slice', 'quiet'):
            self.walk(e.e, r, bad)
        elif k == 'rep':
            self.walk(e.e, r, bad)
            if e.sep is not None:
                self.walk(e.sep, r, bad)
            if e.max is None and self.nullable(e.e, r) and (e.sep is None or self.nullable(e.sep, r)):
                bad.append(e)
        elif k == 'prec':
            for lv in e.levels:
                for op in lv:
                    for _, x in op[0]:
                        self.walk(x, r, bad)


def sccs(nodes, edges):
    idx, low, comp, st, out = {}, {}, {}, [], {}
    for a, b in edges:
        out.setdefault(a, []).append(b)

    def go(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        for w in out.get(v, ()):
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w not in comp:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            while True:
                w = st.pop()
                comp[w] = v
                if w == v:
                    break
    for v in nodes:
        if v not in idx:
            go(v)
    return comp
