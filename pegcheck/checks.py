"""The checks, one function per property."""
import os, re
from . import build, corpus, eff, facts, grammar, harvest, names, run, rt, wapi, wfam, wmal, witness, wty
from .ctx import Ctx

ALL = {}


def check(pid):
    def deco(f):
        ALL[pid] = f
        return f
    return deco


PRODUCT = ('For every rule function of every witness grammar the MIR that the current translator produces is explored jointly with the MIR of '
           'reference code written from the documented semantics; at every joint state the next observable event (element, literal, position, slice '
           'and end queries, rule and parameter calls, failure marks, suppression depth, cache accesses, user code with its captured values, return) '
           'must be the same with the same arguments, to a fixpoint, so loops are covered for any number of iterations.')


def sizes(ctx=None, cap=64):
    """extra sizes from the constants the translator compares against"""
    ok, ms, fa = build.wit('wit_base', {'src/lib.rs': '::peg::parser!{ grammar g() for str { pub rule a() = "a" } }\n'})
    if not ok:
        raise build.BuildFailed('the tree does not build', [m for m in ms if m['level'] == 'error'])
    d = harvest.facts_of(fa)
    return harvest.around(harvest.ints(d) | {int(x) for x in harvest.strings(d) if x and re.fullmatch('[0-9]{1,5}', x)}, cap)


def few_sizes(ctx):
    return sorted({6, 9} | {x for x in sizes(ctx) if 1 < x <= 40})


NEST = 'Every constructor directly inside every other one (%s), value used and unused, is among the witness grammars. '
FAMS = ('C01', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C11')


def nest(ctx, fam):
    """every pair (quick) or chains of three (thorough) of constructors with a member of the family"""
    if fam not in FAMS:
        return
    g = corpus.nestings(fam)
    ctx.suite('nest_' + fam.lower(), [g], floor=g.n - 20)
    if ctx.thorough:
        step = {'C03': 7, 'C01': 3, 'C02': 2}.get(fam, 1)
        g3 = corpus.nestings(fam, 3, step=step)
        rs = g3.rules
        for k in range(0, len(rs), 1200):
            h = corpus.G('nest3_%d' % (k // 1200))
            h.rules = rs[k:k + 1200]
            ctx.suite('nest3_%s_%d' % (fam.lower(), k // 1200), [h])


def simple(pid, gen, floor, sized=False):
    def f(ctx):
        ctx.rule(PRODUCT)
        ctx.suite(gen.__name__, gen(tuple(sizes(ctx, 10000))) if sized else gen(), floor=floor)
        nest(ctx, pid)
        gs = corpus.sized(pid, sizes(ctx))
        ctx.suite('sized_' + pid.lower(), gs, floor=sum(len(g.rules) for g in gs) // 2)
    ALL[pid] = f


simple('C01', corpus.c01, 700)
simple('C02', corpus.c02, 480)
simple('C03', corpus.c03, 1100, True)
simple('C04', corpus.c04, 500)
simple('C05', corpus.c05, 650)
simple('C06', corpus.c06, 340)
simple('C07', corpus.c07, 160)
simple('C08', corpus.c08, 290)
simple('C09', corpus.c09, 160)
simple('C11', corpus.c11, 1000)
simple('C12', corpus.c12, 60)
simple('C13', corpus.c13, 48)
simple('C29', corpus.c29, 250)


def thin(g, k):
    """every k-th generated rule of a grammar; rules others may call stay"""
    h = corpus.G(g.name, g.inp, g.args, g.lt, g.base)
    h.extra = g.extra
    n = 0
    for r in g.rules:
        if re.match(r'rule r\d+\(\)', r):
            n += 1
            if n % k:
                continue
        h.rules.append(r)
    return h


def config_pair(ctx, name, gens, fa, fb, nda=False, ndb=False, floor=0, **kw):
    """the same witness grammars compiled in two configurations of the library"""
    texts = []
    for gen, k in gens:
        for i, g in enumerate(gen()):
            g = thin(g, 1 if ctx.thorough else k)
            g.name = '%s_%s%d' % (g.name, gen.__name__, i)
            texts.append(g.text())
    if 'keep' in kw:
        texts = [t for t in texts if kw['keep'](t)]
        del kw['keep']
    s = run.PairSuite(name, texts, fa, fb, nda, ndb, **kw)
    return ctx.product(s, floor=floor)


@check('C17')
def c17(ctx):
    ctx.rule('Every witness grammar is compiled twice, with and without the trace feature, and for each rule function and parser the two MIR bodies are explored '
             'jointly: they must perform the same observable events (queries, calls, marks, memo accesses, user code, returns) with the same arguments; '
             'calls of the print machinery are the only ones ignored. Without the feature no generated function may reach the print machinery.')
    c = corpus
    gens = [(c.c09, 1), (c.c12, 1), (c.c13, 1), (c.c07, 3), (c.c08, 2), (c.c01, 6), (c.c02, 6), (c.c03, 10), (c.c04, 6), (c.c05, 6), (c.c06, 4), (c.c11, 8), (c.c29, 6)]
    s = config_pair(ctx, 'trace', gens, ('trace',), (), floor=500)
    if s is None:
        return
    # nothing is printed without the feature
    n = 0
    for bid, b in s.B.bodies.items():
        if b.get('crate') != 'wit_trace':
            continue
        n += 1
        for blk in b['blocks']:
            t = blk['t']
            if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['t'] == 'fn':
                nm = s.B.strip(t[1][1]['name'])
                if nm.startswith('io::') or 'print' in nm.split('::')[-1]:
                    ctx.violation('prints without trace ' + nm, 'function %s calls %s although tracing is off (%s)' % (b['name'], nm, t[7]))
    ctx.count('functions scanned for output', n)


@check('C35')
def c35(ctx):
    ctx.rule('Every witness grammar is compiled in a crate of each edition of Rust. Each must be accepted in all of them, and for each rule function and parser the MIR of the other edition is explored jointly with that of '
             'edition 2021: the same observable events with the same arguments, in the same order.')
    c = corpus
    gens = [(c.c09, 1), (c.c12, 1), (c.c13, 1), (c.c07, 4), (c.c08, 2), (c.c01, 8), (c.c02, 8), (c.c03, 12), (c.c04, 8), (c.c05, 8), (c.c06, 4), (c.c11, 10), (c.c29, 8)]
    for ed in ('2015', '2018', '2024'):
        # tokens and types that edition 2024 has other rules for are judged alone
        special = {'a rule returning impl Trait in edition 2024': 'impl Shape', 'an input method in edition 2024': '##'} if ed == '2024' else {}
        keep = lambda t: not any(x in t for x in special.values())
        config_pair(ctx, 'ed' + ed, gens, (), (), floor=400, prelude='extern crate peg;', edition=ed, keep=keep)
        alone = [(k, EDITION_ALONE[k]) for k in special]
        b = witness.Batch('ty_ed' + ed, [t for t in wty.GOOD if keep(t)] + [t for _, t in alone], 'extern crate peg;\n' + wty.PREL, edition=ed).run()
        if not b.report_stray(ctx):
            n = len(b.texts) - len(alone)
            for i, t in enumerate(b.texts):
                ctx.count('witness programs')
                for d in b.diags(i)[:2 if i < n else 1]:
                    ctx.violation(alone[i - n][0] if i >= n else 'rejected in edition %s: %s %s' % (ed, d.msg, line_of(t, d.spans[0][0])),
                                  'a program that is right is rejected in edition %s\n%s\n%s' % (ed, line_of(t, d.spans[0][0]), d.rendered))


EDITION_ALONE = {
    'a rule returning impl Trait in edition 2024': '::peg::parser!{ grammar g() for str { pub rule c() -> impl Shape = "c" { Sq(1) } } }',
    'an input method in edition 2024': 'pub struct W; impl ::peg::Parse for W { type PositionRepr = usize; fn start(&self) -> usize { 0 } fn is_eof(&self, p: usize) -> bool { true } fn position_repr(&self, p: usize) -> usize { p } } '
                                       'impl W { pub fn meth(&self, p: usize) -> ::peg::RuleResult<u8> { ::peg::RuleResult::Failed } } ::peg::parser!{ grammar g() for W { pub rule c() -> u8 = ##meth() } }',
}


# ---- the runtime library against its specification --------------------------------------
RTRULE = ('Each runtime function is explored on MIR as a product with a reference function written from the property: values are named symbolically, every branch is '
          'taken under both outcomes, loops and iterator chains over the input are summarised to counts over element classes, and every path must return the same '
          'value and effect. So the verdict holds for every input, position, literal and set. ')


def runtime(pid, tasks, floor):
    def f(ctx):
        ctx.rule(RTRULE)
        A, B = rt.subject(), rt.reference()
        ts = tasks(A, B)
        if len(ts) < floor:
            ctx.violation('too few runtime functions', 'only %d of %d expected functions found' % (len(ts), floor))
        rt.check(ctx, A, B, ts)
    ALL[pid] = f


runtime('C19', lambda A, B: rt.io_tasks(A, B, 'result'), 10)
runtime('C20', lambda A, B: rt.io_tasks(A, B, 'panic'), 12)
runtime('C21', lambda A, B: rt.pos_tasks(A, B) + rt.text_tasks(A, B, True), 3)
runtime('C27', lambda A, B: rt.text_tasks(A, B, False), 3)


@check('C10')
def c10(ctx):
    ctx.rule(RTRULE + 'The failure marks, the switch to the second run and the construction of the error are decided this way, with the fields of the error state '
             'identified by role. ' + PRODUCT)
    A, B = rt.subject(), rt.reference()
    rt.check(ctx, A, B, rt.err_tasks(A, B))
    c = corpus
    gs = []
    for gen, k in ((c.c05, 4), (c.c09, 1), (c.c11, 6), (c.c08, 5), (c.c12, 1), (c.c13, 1)):
        for i, g in enumerate(gen()):
            g = thin(g, 1 if ctx.thorough else k)
            g.name = '%s_%s%d' % (g.name, gen.__name__, i)
            gs.append(g)
    ctx.suite('c10', gs, floor=400)


# ---- configurations of the library --------------------------------------------------------
NOSTD = """#![no_std]
extern crate alloc;
::peg::parser!{ pub grammar g<'a>(k: &'a usize) for str {
  use alloc::vec; use alloc::vec::Vec; use alloc::string::String; use alloc::borrow::ToOwned; use alloc::boxed::Box;
  pub rule all() -> Vec<Vec<String>> = v:(row() ** ",") !"z" &"" { v }
  rule row() -> Vec<String> = w:word()+ ![_]? { w } / expected!("row")
  rule word() -> String = s:$(['a'..='z']+) quiet!{ "_"? } position!() { s.to_owned() }
  rule list<T>(x: rule<T>) -> Vec<T> = "[" v:x()*<1,5> "]" { v }
  pub rule l() -> Vec<usize> = list(<n()>)
  rule n() -> usize = n:$(['0'..='9']+) {? n.parse().or(Err("number")) } / #{|_i, p| ::peg::RuleResult::Matched(p, 1)}
  pub rule e() -> Box<usize> = precedence!{ x:(@) "+" y:@ { x } -- "-" z:@ { z } -- n:n() { Box::new(n) } "(" e:e() ")" { e } }
  #[no_eof] pub rule m(x: usize) -> usize = ##hook(x)
} }
pub trait H { fn hook(&self, p: usize, x: usize) -> ::peg::RuleResult<usize>; }
impl H for str { fn hook(&self, p: usize, x: usize) -> ::peg::RuleResult<usize> { ::peg::RuleResult::Matched(p, x) } }
pub fn show(e: ::peg::error::ParseError<::peg::str::LineCol>) -> alloc::string::String { use alloc::string::ToString; e.to_string() }
pub fn sl(x: &[u16]) -> bool { ::peg::Parse::is_eof(x, 0) }
"""
PUBLIC_OK = ('Error',)


@check('C26')
def c26(ctx):
    ctx.rule('The library is type-checked in every combination of its features (std, unstable, trace). Per configuration the set of crates the library loads is read '
             'from the compiler: without std only core, alloc and compiler_builtins. Every function of the runtime is compared between the configurations by '
             'structural hash of its MIR, and where it differs by joint exploration of the two bodies; a function that exists in one only must not be public. Witness '
             'grammars are compiled in both and every generated function explored jointly; a no_std crate using every uncached construct must compile.')
    confs = [((), False), ((), True), (('unstable',), True), (('unstable',), False), (('trace',), True)]
    if ctx.thorough:
        confs += [(('trace',), False), (('trace', 'unstable'), True), (('trace', 'unstable'), False)]
    progs = {}
    for feats, nd in confs:
        name = ('no default features' if nd else 'default features') + ''.join(' + ' + f for f in feats)
        ctx.count('configurations built')
        try:
            A = progs[(feats, nd)] = rt.subject(feats, nd)
        except build.BuildFailed as e:
            for m in e.messages[:4]:
                if not m['message'].startswith('aborting due'):
                    ctx.violation('does not build: %s: %s' % (name, m['message']), 'with %s:\n%s' % (name, m['rendered']))
            continue
        ctx.sample('%s: builds; crates loaded by the runtime: %s' % (name, ', '.join(sorted(A.crates_of.get('peg_runtime', []))[:4])))
        if nd:
            for c in sorted(set(A.crates_of['peg_runtime']) - {'core', 'alloc', 'compiler_builtins'}):
                ctx.violation('the runtime links %s without std' % c, 'with %s crate peg-runtime links `%s`' % (name, c))
                break
    std = progs.get(((), False))
    if std is None:
        return
    for (feats, nd), P in progs.items():
        if P is std:
            continue
        name = ('no default features' if nd else 'default features') + ''.join(' + ' + f for f in feats)
        same_runtime(ctx, std, P, name)
    ok, ms, fx = build.wit('wit_nostd', {'src/lib.rs': NOSTD}, (), True)
    ctx.count('configurations built')
    if not ok:
        for m in [m for m in ms if m['level'] == 'error'][:4]:
            ctx.violation('no_std crate does not compile: ' + m['message'], 'a no_std crate using the library without std does not compile\n' + m['rendered'])
    else:
        import json
        cr = json.load(open(os.path.join(fx, 'wit_nostd.json')))['crates']
        for c in cr:
            if c == 'std':
                ctx.violation('peg links std without its feature', 'a no_std crate that depends on peg without default features gets crate `std` linked in (crates: %s)' % ', '.join(cr))
        ctx.sample('no_std witness crate links: ' + ', '.join(cr))
    c = corpus
    gens = [(c.c09, 1), (c.c07, 4), (c.c08, 4), (c.c01, 8), (c.c02, 8), (c.c03, 14), (c.c04, 8), (c.c05, 6), (c.c06, 6), (c.c11, 12), (c.c29, 8)]
    config_pair(ctx, 'nostd', gens, (), (), True, False, floor=400)


def same_runtime(ctx, S, P, name):
    fs = {bid: b for bid, b in S.bodies.items() if b.get('crate') == 'peg_runtime' and b.get('kind') == 'fn'}
    fp = {bid: b for bid, b in P.bodies.items() if b.get('crate') == 'peg_runtime' and b.get('kind') == 'fn'}
    pub = {}
    for X in (S, P):
        for it in X.items:
            if it['crate'] == 'peg_runtime':
                pub[it['id']] = it['vis']

    # the same function in both: by path, as impl blocks are numbered differently
    def names(X, f):
        out = {}
        for bid, b in f.items():
            out.setdefault(X.strip(b['name']), []).append(bid)
        return out
    ns, np = names(S, fs), names(P, fp)
    tasks = None
    for n in sorted(set(ns) | set(np)):
        a, b = ns.get(n), np.get(n)
        if 'error::Error for' in n or ' as error::Error>' in n or ' as Error>' in n:
            continue
        if a is None or b is None:
            i = (a or b)[0]
            v = pub.get(i, '')
            if 'Public' in v or n.startswith('<'):
                ctx.violation('%s exists only in one configuration' % n, 'function %s exists %s (%s)' % (n, 'only with ' + name if a is None else 'not with ' + name, (S if a else P).bodies[i]['span']))
            continue
        ctx.count('programs')
        if S.body_hash(a[0]) == P.body_hash(b[0]):
            ctx.count('functions with identical MIR')
            ctx.count('events')
            continue
        if tasks is None:
            B = rt.reference()
            tasks = {}
            for t in rt.io_tasks(P, B, 'result') + rt.io_tasks(P, B, 'panic') + rt.pos_tasks(P, B) + rt.text_tasks(P, B, True) + rt.text_tasks(P, B, False) + rt.err_tasks(P, B):
                tasks.setdefault(t.ba, []).append(t)
        for t in tasks.get(b[0], []):
            if t.mode == 'panic':
                # panics must be the same on both sides
                if rt.panics(S, a[0], t) != rt.panics(P, b[0], t):
                    ctx.violation('%s panics differently' % n, '%s panics in one configuration only (%s)' % (n, fp[b[0]]['span']))
                continue
            t.bbs = [a[0]]
            t.name = '%s with %s, against the default configuration' % (t.name, name)
            rt.check(ctx, P, S, [t])
        if b[0] not in tasks and 'Public' in pub.get(b[0], ''):
            ctx.violation('%s differs' % n, 'the body of public function %s differs with %s (%s) and is not one of the specified operations' % (n, name, fp[b[0]]['span']))


# ---- the parser of grammars -------------------------------------------------------------
@check('C22')
def c22(ctx):
    ctx.rule('grammar.rustpeg is read by an independent parser and turned into reference code; every function of the checked-in parser (grammar.rs) is explored jointly '
             'with the reference function of its rule: same events in the same order, same results, same failure descriptions, to a fixpoint. '
             'Token-stream operations stay abstract, so the verdict holds for every token stream.')
    s = run.GrammarSuite()
    ctx.product(s, floor=20)


@check('C24')
def c24(ctx):
    from . import tok
    ctx.rule('every function of the token stream is explored jointly with a reference function over a symbolic token list; loops are followed token access by token access, '
             'recursion by induction over the groups of the stream')
    tok.check(ctx)


def expr_nodes(e, out):
    """all nodes of an expression"""
    out.append(e)
    if e.k == 'call':
        for kind, a in e.args:
            if kind == 'peg':
                expr_nodes(a, out)
    elif e.k == 'action':
        for _, x in e.elems:
            expr_nodes(x, out)
    elif e.k == 'choice':
        for x in e.alts:
            expr_nodes(x, out)
    elif e.k == 'rep':
        expr_nodes(e.e, out)
        if e.sep is not None:
            expr_nodes(e.sep, out)
    elif e.k == 'prec':
        for lv in e.levels:
            for op in lv:
                for _, x in op[0]:
                    expr_nodes(x, out)
    elif hasattr(e, 'e'):
        expr_nodes(e.e, out)
    return out


PRE = 'pub fn custom(i: &str, p: usize) -> ::peg::RuleResult<()> { ::peg::RuleResult::Failed }\n'


def line_of(text, o):
    a = text.rfind('\n', 0, o) + 1
    b = text.find('\n', o)
    return text[a:b if b >= 0 else None].strip()


def analyses(ctx, what, gs):
    """the analyses of the translator against their definition, on the grammars' syntax trees"""
    b = witness.Batch('an_' + what, gs, PRE, expand=True).run()
    if b.report_stray(ctx):
        return
    for gi, text in enumerate(gs):
        inner, off = wfam.inner(text)
        g = grammar.parse(inner)
        st = witness.Static(g)
        nodes = []
        for r in g.rules:
            expr_nodes(r.expr, nodes)
        reps = {n.lo + off for n in nodes if n.k == 'rep'}
        calls = {n.lo + off for n in nodes if n.k == 'call'}
        loops = {n.lo + off for n in st.loops()}
        may, groups = st.cycles()
        edges = st.edges
        may = {n.lo + off for n in may}
        ctx.count('witness grammars')
        ctx.count('programs', len(g.rules))
        seen = set()
        for d in b.diags(gi):
            lo, hi = d.spans[0]
            ctx.count('diagnostics')
            if what == 'loops':
                if lo in calls and lo not in reps:
                    continue        # about a call: another matter
                at = [lo] if lo in loops else [x for x in sorted(loops) if lo <= x < hi and x not in seen]
            else:
                if lo in reps:
                    continue
                at = [lo] if lo in may else [x for x in sorted(may) if lo <= x < hi and x not in seen]
            if at:
                seen.add(at[0])
                # the rules named form the cycle that this call closes
                m = re.search(r': (\S+(?: -> \S+)+)$', d.msg) if what == 'recursion' and at[0] == lo else None
                if m:
                    ctx.count('cycles named')
                    path = m.group(1).split(' -> ')
                    if path[0] != path[-1] or path[-1] != text[lo:hi] or any(x not in edges.get(y, ()) for y, x in zip(path, path[1:])) or len(set(path)) < len(path) - 1:
                        ctx.violation('misnames the cycle at %s' % line_of(text, lo), 'the rules named in the report are not a cycle closed by this call\nrule: %s\nerror: %s' % (line_of(text, lo), d.msg))
                continue
            ctx.violation('rejects %s' % line_of(text, lo), 'rejected although %s\nrule: %s\nerror: %s\n%s' % (
                'no unbounded loop here has a body that can be empty' if what == 'loops' else 'this call cannot be reached again without consuming input or a resolving rule',
                line_of(text, lo), d.msg, d.rendered))
        if what == 'loops':
            ctx.count('obligations', len(reps))
            for o in sorted(loops - seen):
                ctx.violation('accepts %s' % line_of(text, o), 'an unbounded loop whose body can match without consuming is not reported\nrule: %s\nloop at: `%s`' % (
                    line_of(text, o), text[max(0, o - 40):o + 12].replace('\n', ' ')))
        else:
            ctx.count('obligations', len(calls))
            for grp in groups:
                if not any(c.lo + off in seen for c in grp):
                    ctx.violation('accepts %s' % line_of(text, grp[0].lo + off), 'left recursion that nothing resolves is not reported\n' + '\n'.join(
                        'rule: ' + line_of(text, c.lo + off) for c in grp[:6]))
        if gi % 9 == 0 and g.rules:
            r = g.rules[-2]
            ctx.sample('`%s`: %d loops and %d calls judged in this grammar, %d and %d to be rejected' % (
                line_of(text, r.expr.lo + off), len(reps), len(calls), len(loops), len(may)))


ANALYSIS = ('Grammars generated from every kind of expression in every place are expanded by the current translator and the errors it reports are compared, '
            'place by place, with %s computed from the definition on an independently read syntax tree.')


@check('C14')
def c14(ctx):
    ctx.rule(ANALYSIS % 'the cycles of calls that can be closed before anything was consumed')
    analyses(ctx, 'recursion', wfam.rec_grammars(ctx.thorough, ctx.seed) + wfam.sized_rec(few_sizes(ctx)))
    # recursion through a fragment given as an argument
    b = witness.Batch('an_fragment', wfam.FRAGMENT, PRE, expand=True).run()
    for i, g in enumerate(wfam.FRAGMENT):
        ctx.count('witness grammars')
        bad = 'rule foo() -> () = up(<foo()>) }' in g and '() = x() {} rule' in g
        if bad and not b.diags(i):
            ctx.violation('left recursion through a fragment is accepted', 'left recursion through a fragment given as an argument is not reported\n' + g)
        if not bad and b.diags(i):
            ctx.violation('rejects ' + g, 'rejected although every recursion is behind something consumed\n%s\n%s' % (g, b.diags(i)[0].rendered))


@check('C15')
def c15(ctx):
    ctx.rule(ANALYSIS % 'the loops whose body is nullable')
    analyses(ctx, 'loops', wfam.loop_grammars(ctx.thorough, ctx.seed) + wfam.sized_loops(few_sizes(ctx)))


def empty_loops(text, memo={}):
    """operators of loops that are rejected for another reason"""
    if text not in memo:
        try:
            inner, off = wfam.inner(text)
            memo[text] = {n.lo + off for n in witness.Static(grammar.parse(inner)).loops()}
        except grammar.SyntaxErr:
            memo[text] = set()
    return memo[text]


def marked(ctx, b, marks, i, text, strict=True):
    """every marked place is reported, nothing else is"""
    ds = b.diags(i)
    ctx.count('obligations', len(marks))
    hit = set()
    shown = text if len(text) < 1500 else ''
    for d in ds:
        # any span of the report may be the one that points at the offending place
        m = [k for k, (lo, hi) in enumerate(marks) for s in d.spans if lo <= s[0] < hi or (s[0] < lo and s[1] > hi and s[1] - s[0] < hi - lo + 60)]
        ctx.count('diagnostics')
        if m:
            hit.add(m[0] if m[0] not in hit else m[-1])
        elif strict and d.spans[0][0] not in empty_loops(text):
            ctx.violation('other error in %s %s' % (line_of(text, d.spans[0][0]), d.msg), 'an error is reported where the grammar is right (or not at the offending place)\n%s\n%s' % (d.msg, d.rendered))
    for k, (lo, hi) in enumerate(marks):
        if k in hit:
            continue
        # one report may stand for several occurrences on a line
        if any(line_of(text, marks[h][0]) == line_of(text, lo) for h in hit):
            continue
        if ds and strict and not shown:
            ctx.violation('not reported ' + line_of(text, lo), 'the malformed construct is not reported\nline: %s\nplace: `%s`' % (line_of(text, lo), text[lo:hi]))
        else:
            ctx.violation('not reported ' + line_of(text, lo), 'the malformed construct is not reported\nline: %s\nplace: `%s`\nreported instead: %s' % (
                line_of(text, lo), text[lo:hi], '; '.join(d.msg + ' at `%s`' % text[d.spans[0][0]:d.spans[0][1]][:30] for d in ds[:3]) or 'nothing'))


def accepted(ctx, name, texts, prelude='', what='a well-formed grammar is rejected', **kw):
    b = witness.Batch(name, texts, prelude, **kw).run()
    if b.report_stray(ctx):
        return b
    for i, t in enumerate(texts):
        ctx.count('witness grammars')
        ctx.count('obligations')
        for d in b.diags(i)[:2]:
            ctx.violation('rejected %s %s' % (d.msg, line_of(t, d.spans[0][0])), '%s\n%s\n%s' % (what, line_of(t, d.spans[0][0]), d.rendered))
    return b


def rejected(ctx, name, texts, prelude, why, **kw):
    """programs that must be rejected on the marked line"""
    ms = [wmal.marks(t) for t in texts]
    b = witness.Batch(name, [t for t, _ in ms], prelude, **kw).run()
    if b.report_stray(ctx):
        return ms
    for i, (t, m) in enumerate(ms):
        ctx.count('witness grammars')
        ctx.count('obligations')
        m = [(t.rfind('\n', 0, lo) + 1, t.find('\n', lo) if '\n' in t[lo:] else len(t)) for lo, hi in m]
        ds = b.diags(i)
        if not any(lo <= s[0] < hi or s[0] <= lo < s[1] for d in ds for s in d.spans for lo, hi in m):
            ctx.violation('accepted ' + line_of(t, m[0][0]), 'a program that must be rejected (%s) compiles\n%s\n%s' % (why, t, '; '.join(d.msg for d in ds)))
    return ms


@check('C16')
def c16(ctx):
    ctx.rule('Malformed grammars with the offending place marked are compiled with the current translator: each must produce an error whose primary location is the marked '
             'place, and no error anywhere else; well-formed relatives must compile without any.')
    szs, szg = wmal.sized(few_sizes(ctx))
    for what, gs, expand, strict in (('macro', wmal.macro_level(), True, True), ('sized', szs, True, True), ('rust', wmal.rust_level(), False, False)):
        ms = [wmal.marks(t) for t in gs]
        b = witness.Batch('mal_' + what, [t for t, _ in ms], PRE, expand=expand).run()
        if b.report_stray(ctx):
            continue
        for i, (t, m) in enumerate(ms):
            ctx.count('witness grammars')
            if what == 'rust':
                # embedded code: somewhere in the rule that contains it
                m = [(t.rfind('\n', 0, lo) + 1, t.find('\n', lo)) for lo, hi in m]
            marked(ctx, b, m, i, t, strict)
        ctx.sample('%d malformed grammars (%s level), %d marked places' % (len(gs), what, sum(len(m) for _, m in ms)))
    ws = wmal.whole()
    b = witness.Batch('mal_whole', ws, expand=True).run()
    if not b.report_stray(ctx):
        for i, t in enumerate(ws):
            ctx.count('witness grammars')
            ctx.count('obligations')
            if not b.diags(i):
                ctx.violation('accepted ' + t, 'an incomplete grammar is accepted: ' + t)
            for d in b.diags(i):
                if 'panicked' in d.msg:
                    ctx.violation('panics ' + t, 'the macro panics instead of reporting: %s\n%s' % (t, d.rendered))
    accepted(ctx, 'mal_rel', wmal.relatives() + szg, PRE)


@check('C32')
def c32(ctx):
    from . import pint
    ctx.rule('Grammars that use every part of the syntax are broken at every token: cut off, a token less, another one, one more, two exchanged. What must be reported for each follows from '
             'the documented meaning of grammars and error reports applied to the grammar of grammars: the furthest token at which anything was expected, and exactly the set of what was. '
             'The current macro is given each of them by the compiler: one error, at that token, with those words; never a panic, never none.')
    try:
        rs, good = pint.reports(open(os.path.join(build.REPO, 'peg-macros/grammar.rustpeg')).read())
    except (pint.Undecided, grammar.SyntaxErr) as e:
        ctx.note('NOT DECIDED: %s' % e)
        return
    if len(rs) < 2500:
        ctx.violation('too few malformed grammars', 'only %d of the broken grammars are malformed' % len(rs))
    head, tail = '::peg::parser!{ ', ' }'
    texts = [head + v + tail for v, *_ in rs]
    b = witness.Batch('mal_tok', texts, expand=True).run()
    if b.report_stray(ctx):
        return
    k = len(head)
    for i, (v, lo, hi, msg) in enumerate(rs):
        ctx.count('witness grammars')
        ctx.count('obligations')
        at = (k + lo, k + hi) if lo is not None else (0, len(texts[i]))
        ds = b.diags(i)
        if not ds:
            ctx.violation('accepted ' + v, 'the macro reports nothing for a grammar it cannot read\n%s\nmust report: %s' % (v, msg))
        elif len(ds) > 1 or ds[0].msg != msg or ds[0].spans[0] != at:
            d = ds[0]
            ctx.violation('reported otherwise ' + v, 'another error than the meaning of the grammar says\ngrammar: %s\nmust say: %s\nat: `%s`\nreported: %s\nat: `%s`' % (
                v, msg, texts[i][at[0]:at[1]], '; '.join(x.msg for x in ds), texts[i][d.spans[0][0]:d.spans[0][1]]))
    ctx.sample('%d broken grammars, %d broken into well-formed ones (not judged here)' % (len(rs), good))


@check('C28')
def c28(ctx):
    ctx.rule('Programs around grammars with lifetimes, type parameters, bounds, visibilities, return types, arguments and imports are type- and borrow-checked against '
             'the current translator: exact function types are asserted, programs that would let a value outlive its input, break a bound or reach a non-public rule '
             'must be rejected at the marked place.')
    accepted(ctx, 'ty_good', wty.GOOD, wty.PREL, 'a program that is right by the meaning of its lifetimes, types and visibilities is rejected')
    for stage in ('resolve', 'type', 'borrow'):
        ms = rejected(ctx, 'ty_' + stage, [t for t, s in wty.BAD if s == stage], wty.PREL, stage)
        ctx.sample('%d programs that must be rejected (%s)' % (len(ms), stage))


@check('C33')
def c33(ctx):
    ctx.rule('Inputs of user types that implement exactly the traits a grammar needs, with position, element, slice and value types that have exactly the traits these ask for, are given grammars with '
             'every construct in every context (with tracing as well). All must type-check. Taking one needed trait away must be reported where the construct stands.')
    for what, ts, fs in (('in', wapi.inputs(), ()), ('in_traced', wapi.traced(), ('trace',))):
        if sum(t.count(' rule ') for t in ts) < (5000 if not fs else 1200):
            ctx.violation('too few rules', 'only %d rules' % sum(t.count(' rule ') for t in ts))
        accepted(ctx, 'api_' + what, ts, wapi.PRE, 'a grammar for an input type that has all traits it needs is rejected', features=fs, bare=True)
        ctx.count('rules', sum(t.count(' rule ') for t in ts))
    rejected(ctx, 'api_miss', wapi.missing(), wapi.PRE, 'an input type without the trait')


@check('C34')
def c34(ctx):
    ctx.rule('Programs that use the public types of the library in every way their declarations promise (fields, derived and conditional traits, ownership, lifetimes of iterators, trait methods, exact '
             'result types of parsers) are type-checked with every feature set; programs that reach what is hidden must not be accepted.')
    for name, fs, nd in (('std', (), False), ('nostd', (), True), ('unstable', ('unstable',), True), ('trace', ('trace',), False)):
        accepted(ctx, 'api_' + name, wapi.API + (wapi.APISTD if name != 'nostd' else []), wapi.APRE, 'a use of the public interface is rejected (%s)' % name, features=fs, nodefault=nd)
    for i, ts in enumerate(wapi.APIBAD):
        rejected(ctx, 'api_hidden%d' % i, ts, wapi.APRE, 'a use of what is hidden')


@check('C25')
def c25(ctx):
    ctx.rule('Every identifier the translator can write is read out of its compiled form and given to labels, parameters, grammar arguments, pattern variables, operands and '
             'local variables of embedded code, to rules, type parameters, and to functions, modules, types and methods around the grammar. ' + PRODUCT +
             ' The reference code uses fresh names for all variables, so a capture in either direction shows as another value, another callee or a compile error.')
    ok, ms, fa = build.wit('wit_base', names.BASE)
    if not ok:
        raise build.BuildFailed('the tree does not build', [m for m in ms if m['level'] == 'error'])
    ids = names.harvested(fa)
    ctx.count('identifiers of the translator', len(ids))
    if len(ids) < 60:
        ctx.violation('too few identifiers', 'only %d identifiers found in the translator' % len(ids))
    per = 20 if ctx.thorough else 45
    ctx.product(names.NameSuite('names_var', names.variables(ids, per)), floor=300)
    ctx.product(names.NameSuite('names_rule', names.rule_names(ids)), floor=300)
    gs, ext, pre = names.scope(ids)
    ctx.product(names.NameSuite('names_scope', gs, ext, pre), floor=300)
    ps = names.programs()
    b = witness.Batch('names_prog', [t for t, _ in ps]).run()
    if not b.report_stray(ctx):
        for i, (t, known) in enumerate(ps):
            ctx.count('witness programs')
            for d in b.diags(i)[:1]:
                ctx.violation(known or 'rejected %s %s' % (d.msg, line_of(t, d.spans[0][0])), 'a program that is right with any other names is rejected\n%s\n%s' % (t, d.rendered))


@check('C23')
def c23(ctx):
    from . import syn
    ctx.rule('Grammars in every documented spelling (each prefix on each primary under each suffix and separator, neighbours without separators, alternatives, code, layout; every combination of the optional '
             'parts of rule and grammar headers; every form of type in every place for one) are read by an independent reader of the documented syntax. ' + PRODUCT +
             ' Documentation comments and visibilities of the generated items are read from the compiler and compared with what the reader saw.')
    fams = [('syn_e', syn.expressions(ctx.thorough), 800), ('syn_h', syn.headers(), 300), ('syn_t', syn.types(), 300), ('syn_g', syn.grammar_headers() + syn.DOCUMENTED, 200)]
    for name, gs, floor in fams:
        s = ctx.suite(name, gs, ext=run.load_ext() + syn.PREL, floor=floor)
        if s is None:
            continue
        ia, ib = ({re.sub(r'^[^:]*::', '', re.sub(r'\[[0-9a-f]+\]', '', it['id'])): it for it in P.items if it['kind'] in ('Fn', 'Mod')} for P in (s.A, s.B))
        for g in s.grams:
            want = [(g.name, g.doc)] + [(g.name + '::' + r.name.replace('r#', ''), r.doc) for r in g.rules if r.vis is not None]
            for path, doc in want:
                a, b = ia.get(path), ib.get(path)
                ctx.count('obligations')
                if a is None:
                    ctx.violation('no item %s' % path, 'no item `%s` is generated' % path)
                    continue
                if doc_text_of(doc) != a['doc']:
                    ctx.violation('documentation of %s' % path, 'documentation of `%s` is %r, the grammar says %r' % (path, a['doc'], doc_text_of(doc)))
                if b is not None and vis_of(a) != vis_of(b):
                    ctx.violation('visibility of %s' % path, 'visibility of `%s` is %s, the grammar says %s' % (path, a['vis'], b['vis']))


def doc_text_of(parts):
    from . import syn
    return syn.doc_text(parts)


def vis_of(it):
    return re.sub(r'0:\d+|wit_|spec_|\[[0-9a-f]+\]', '', it['vis'])


THREADS = """
fn shared<T: Send + Sync + 'static>(_: &T) {}
peg::parser!{ grammar g(k: u8) for str {
  #[cache] pub rule a() -> Vec<&'input str> = l()* / expected!("x")
  #[cache_left_rec] pub rule e() -> u8 = x:e() "+" y:t() { x + y } / t()
  rule t() -> u8 = "1" { k } / quiet!{ "2" } { k }
  rule l() -> &'input str = $(['a'..='z']+) } }
peg::parser!{ grammar b() for [u8] { pub rule a() -> usize = n:[b'0'..=b'9']+ { n.len() } } }
pub fn f() {
    let r = std::thread::spawn(|| g::e("1+1", 1)).join().unwrap();
    let q = std::thread::spawn(|| b::a(b"12")).join().unwrap();
    shared(&r); shared(&q);
    let err: peg::error::ParseError<peg::str::LineCol> = r.unwrap_err();
    shared(&err); shared(&err.location); shared(&err.expected);
    let s = String::from("abc");
    std::thread::scope(|x| { let h = x.spawn(|| g::a(&s, 1)); let i = x.spawn(|| g::a(&s, 2)); h.join().unwrap() == i.join().unwrap() });
}
""", """
fn shared<T: Send + Sync>() {}
pub fn f() { shared::<peg::error::ExpectedSet>(); shared::<peg::error::ErrorState>(); shared::<peg::RuleResult<u8>>(); shared::<peg::str::LineCol>(); shared::<peg::error::ParseError<usize>>(); }
"""


@check('C18')
def c18(ctx):
    ctx.rule('In every function of the runtime library (each feature set), of the macro crate, and generated for the witness grammars, every call, constant, static, thread-local and cast is classified by what it '
             'may read or keep besides its arguments: statics that can change, thread-locals, locks and atomics, the clock, randomness, the environment, input and output, pointer values, memory never freed, and the order '
             'of hashed containers where it reaches an ordered result. None may occur. Type-checked witnesses move parsers and their results between threads.')
    c = corpus
    scans = []
    for feats, nd in (((), False), ((), True), (('unstable',), False)):
        ok, ms, fx = build.wit('wit_base', names.BASE if not nd else rt.BASE, feats, nd)
        if not ok:
            raise build.BuildFailed('the tree does not build', [m for m in ms if m['level'] == 'error'])
        scans.append(('runtime', run.rt_facts(fx, feats, nd), 35))
        if not feats and not nd:
            scans.append(('macros', os.path.join(fx, 'peg_macros.json'), 120))
    gens = [(c.c09, 1), (c.c12, 1), (c.c13, 1), (c.c07, 2), (c.c08, 2), (c.c01, 4), (c.c02, 4), (c.c03, 6), (c.c04, 4), (c.c05, 4), (c.c06, 3), (c.c11, 6), (c.c29, 4)]
    texts = []
    for gen, k in gens:
        for i, g in enumerate(gen()):
            g = thin(g, 1 if ctx.thorough else k)
            g.name = '%s_%s%d' % (g.name, gen.__name__, i)
            texts.append(g.text())
    s = run.Suite('effects', texts)
    a, _ = s.sources()
    ok, ms, fx = build.wit('wit_effects', {'src/lib.rs': a, 'src/ext.rs': s.ext})
    ctx.count('witness grammars', len(texts))
    if ok:
        scans.append(('generated code', os.path.join(fx, 'wit_effects.json'), 1500))
    else:
        s.src_a, s.msgs_a = a, [m for m in ms if m['level'] == 'error']
        ctx.compile_failure(s)
    for what, f, floor in scans:
        P = facts.Program([f], [])
        bodies = [b for b in P.bodies.values() if b['id'] in P.local and not re.match(r'wit_effects::(ext|prel)\b', b['id'])]
        sc = eff.Scan(bodies).run({it['id']: it for it in P.items if it['kind'].startswith('Static')})
        for k, v in sc.n.items():
            ctx.count('%s (%s)' % (k, what), v)
            ctx.count('obligations', v)
        ctx.sample('%s %s: %s, %d effects' % (what, os.path.basename(f), ', '.join('%d %s' % (v, k) for k, v in sc.n.items()), len(sc.found)))
        if len(bodies) < floor:
            ctx.violation('too few functions ' + what, 'only %d functions found in %s' % (len(bodies), what))
        for k, t in sc.found:
            ctx.violation(what + ' ' + k, t)
        for u in sc.undecided:
            ctx.count('not decided')
            ctx.note('NOT DECIDED %s: %s' % (what, u))
    accepted(ctx, 'threads', list(THREADS), 'extern crate peg;', 'a parser cannot be used from several threads')


@check('C31')
def c31(ctx):
    ctx.rule('Every witness grammar is compiled with the trace feature and each rule function explored jointly with reference code that prints the attempt, its position and its outcome around every evaluation of the body '
             'and around every memo lookup that hits: between any two observable events both must print the same lines about rules and levels, with the same positions. ' + PRODUCT)
    c = corpus
    gens = [(c.c09, 1), (c.c12, 1), (c.c13, 1), (c.c07, 3), (c.c08, 2), (c.c01, 8), (c.c02, 8), (c.c03, 12), (c.c04, 8), (c.c05, 8), (c.c06, 4), (c.c11, 10), (c.c29, 8)]
    texts = []
    for gen, k in gens:
        for i, g in enumerate(gen()):
            g = thin(g, 1 if ctx.thorough else k)
            g.name = '%s_%s%d' % (g.name, gen.__name__, i)
            texts.append(g.text())
    ctx.product(run.TraceSuite('prints', texts), floor=400)
