"""Runs the product analysis over witness grammars and collects what was covered and what failed."""
import gc, os, re, sys, time, traceback
from multiprocessing import Pool
from . import build, facts, engine, grammar, emit
from .engine import Product, Config, Joint, Side, Frame, Mismatch, Inconclusive, ERR, STATE, INPUT, Infeasible, show

sys.setrecursionlimit(20000)
HEAD = '#![allow(warnings)]\npub mod ext;\nuse ext::*;\n'


def load_ext():
    return open(os.path.join(build.VERIF, 'corpus', 'ext.rs')).read()


def rt_facts(fa, features=(), nodefault=False):
    f = sorted(([] if nodefault else ['std']) + [x for x in features if x in ('std', 'unstable')])
    return os.path.join(fa, 'peg_runtime' + ''.join('+' + x for x in f) + '.json')


class PairSuite:
    """the same grammars compiled by /repo in two configurations"""

    def __init__(self, name, texts, fa=(), fb=(), nda=False, ndb=False, prelude='', edition='2021'):
        self.edition = edition          # of the variant
        self.s = Suite(name, texts, fa, nda, prelude)
        self.name, self.texts, self.grams = name, texts, self.s.grams
        self.fb, self.ndb = fb, ndb

    def build(self):
        a, _ = self.s.sources()
        self.src_a = a
        files = {'src/lib.rs': a, 'src/ext.rs': self.s.ext}
        out = []
        for feats, nd, ed in ((self.fb, self.ndb, '2021'), (self.s.features, self.s.nodefault, self.edition)):
            ok, ms, fx = build.wit('wit_' + self.name, files, feats, nd, edition=ed)
            self.ok_a, self.msgs_a = ok, [m for m in ms if m['level'] == 'error']
            if not ok:
                self.failed = 'base' if not out else 'variant'
                return False
            out.append(facts.Program([os.path.join(fx, 'wit_' + self.name + '.json'), rt_facts(fx, feats, nd)], ['wit_' + self.name, 'peg_runtime', 'peg']))
        self.B, self.A = out
        canon_err(self.A)
        canon_err(self.B)
        return True


class Suite:
    """grammars (texts `pub grammar name() for T { ... }`) compiled by /repo (A) and by the reference emitter (B)"""

    def __init__(self, name, texts, features=(), nodefault=False, prelude='', ext=None):
        self.name = name
        self.texts = texts
        self.features = features
        self.nodefault = nodefault
        self.prelude = prelude
        self.ext = load_ext() if ext is None else ext
        self.grams = [grammar.parse(t) for t in texts]

    def sources(self):
        a = HEAD + self.prelude + '\n'
        lines = []
        for g, t in zip(self.grams, self.texts):
            a += '::peg::parser! {\n' + t + '\n}\n'
        b = HEAD + self.prelude + '\n' + '\n'.join(emit.emit(g) for g in self.grams)
        return a, b

    def build(self):
        a, b = self.sources()
        self.src_a = a
        okb, mb, fb = build.spec('spec_' + self.name, {'src/lib.rs': b, 'src/ext.rs': self.ext})
        if not okb:
            raise build.BuildFailed('reference code for %s does not compile' % self.name,
                                    [m for m in mb if m['level'] == 'error'], '\n'.join(m['rendered'] for m in mb if m['level'] == 'error')[:4000])
        oka, ma, fa = build.wit('wit_' + self.name, {'src/lib.rs': a, 'src/ext.rs': self.ext}, self.features, self.nodefault)
        self.ok_a = oka
        self.msgs_a = [m for m in ma if m['level'] == 'error']
        if not oka:
            return False
        A = facts.Program([os.path.join(fa, 'wit_' + self.name + '.json'), rt_facts(fa, self.features, self.nodefault)],
                          ['wit_' + self.name, 'peg_runtime', 'peg'])
        B = facts.Program([os.path.join(fb, 'spec_' + self.name + '.json'), os.path.join(fb, 'peg+std.json')],
                          ['spec_' + self.name, 'peg'])
        self.A, self.B = canon_err(A), B
        return True


class TraceSuite(Suite):
    """grammars compiled with tracing, against reference code that prints every attempt and its outcome"""

    def __init__(self, name, texts):
        Suite.__init__(self, name, texts, ('trace',))
        self.config = PrintConfig

    def sources(self):
        a, _ = Suite.sources(self)
        return a, HEAD + self.prelude + '\n' + '\n'.join(emit.emit(g, True) for g in self.grams)


class PrintConfig(Config):
    ignore = ()

    def classify(self, side, k, canon):
        if canon == 'io::_print':
            return ('print', canon)
        return Config.classify(self, side, k, canon)


class GrammarSuite:
    """the checked-in parser of grammars against reference code for grammar.rustpeg"""
    DEPS = '\nproc-macro2 = "1.0.24"\nquote = "1.0"'

    def __init__(self):
        self.name = 'grammar'
        d = os.path.join(build.REPO, 'peg-macros')
        self.texts = [open(os.path.join(d, 'grammar.rustpeg')).read()]
        self.ast, self.tok = (open(os.path.join(d, f)).read() for f in ('ast.rs', 'tokens.rs'))
        self.grams = [grammar.parse(self.texts[0])]

    def build(self):
        g = self.grams[0]
        g.name = 'peg'
        b = '#![allow(warnings)]\nextern crate proc_macro;\nmod ast;\nmod tokens;\npub mod grammar {\nuse super::*;\n' + emit.emit(g) + '\n}\n'
        g.name = 'grammar::peg'
        okb, mb, fb = build.spec('spec_gram', {'src/lib.rs': b, 'src/ast.rs': self.ast, 'src/tokens.rs': self.tok}, self.DEPS)
        if not okb:
            es = [m for m in mb if m['level'] == 'error']
            raise build.BuildFailed('code written from grammar.rustpeg does not type-check', es, '\n'.join(m['rendered'] for m in es)[:4000])
        from . import rt
        oka, ma, fa = build.wit('wit_base', rt.BASE)
        self.src_a = rt.BASE['src/lib.rs']
        self.msgs_a = [m for m in ma if m['level'] == 'error']
        if not oka:
            return False
        self.A = canon_err(facts.Program([os.path.join(fa, 'peg_macros.json'), os.path.join(fa, 'peg_runtime.json')], ['peg_macros', 'peg_runtime', 'peg']))
        self.B = facts.Program([os.path.join(fb, 'spec_gram.json'), os.path.join(fb, 'peg+std.json')], ['spec_gram', 'peg'])
        return True


CANON_ERR = {'max_err_pos', 'suppress_fail', 'reparsing_on_error', 'expected'}


def canon_err(A):
    """names the fields of the error state by their role, whatever they are called"""
    for aid, a in A.adts.items():
        if A.adt_name(aid).split('::')[-1] == 'ErrorState':
            if {f[0] for f in a['variants'][0]['fields']} >= CANON_ERR:
                return A
            from . import rt
            e = rt.RtProduct(rt.RtConfig(A, A))
            r = rt.err_roles(e, 0)
            if r:
                names = {rt.ROLE_MAX: 'max_err_pos', rt.ROLE_SUP: 'suppress_fail', rt.ROLE_REP: 'reparsing_on_error', rt.ROLE_EXP: 'expected'}
                m = {f: names[x] for f, x in r[1].items() if x in names and names[x] != f}
                if len(set(m.values())) == len(m):
                    A.rename_fields(m)
            return A
    return A


def is_parse_fn(prog, b):
    tys = [prog.ty(t) for t in b['locals'][:b['argc'] + 1]]
    return tys[0].startswith('RuleResult<') or 'RuleResult<' in tys[0][:30]


def last(name):
    return name.split('::')[-1]


def fns_of(prog, mod):
    """functions directly in a module: (path, body)"""
    ix = prog.__dict__.get('_fns_by_mod')
    if ix is None:
        ix = prog._fns_by_mod = {}
        for bid, b in prog.bodies.items():
            if b.get('kind') == 'fn':
                n = prog.strip(b['name'])
                ix.setdefault(n.rpartition('::')[0], []).append((n, b))
    return ix.get(mod, [])


def rule_fns(prog, mod):
    """rule name -> body, for the rule functions of grammar module `mod`"""
    out = {}
    for n, b in fns_of(prog, mod):
        tys = [prog.ty(t) for t in b['locals'][1:b['argc'] + 1]]
        if any(t.startswith('&mut') and t.endswith('ErrorState') for t in tys):
            m = re.match(r'_*(?:parse_)?_*(.*)', last(n))
            out[last(n)] = b
    return out


def find_prefix(names, rules):
    """the naming scheme of rule functions, e.g. `__parse_` + rule"""
    best, cnt = '__parse_', -1
    seen = set()
    for n in names:
        for r in rules:
            if n.endswith(r):
                p = n[:len(n) - len(r)]
                if p in seen:
                    continue
                seen.add(p)
                c = sum(1 for r2 in rules if p + r2 in names)
                if c > cnt or (c == cnt and p == '__parse_'):
                    best, cnt = p, c
    return best


def new_frame(j, si, prog, bid, args):
    j.uid += 1
    f = Frame(bid, j.uid)
    for i, a in enumerate(args):
        j.sides[si].store[('L', f.uid, i + 1)] = a
    j.sides[si].frames.append(f)


def state_type(prog, b):
    """the per-parse state a rule function is handed: its first exclusive reference that is not the error state"""
    for t in b['locals'][1:b['argc'] + 1]:
        m = re.match(r'&mut([\w:]+)(<.*>)?$', prog.ty(t))
        if m and not m.group(1).endswith('ErrorState'):
            return m.group(1).split('::')[-1]
    return None


def classify_params(prog, b, skip=0, inty=None, states=('ParseState',)):
    """role of each parameter: err, state, input, pos, other"""
    out = []
    seen_in = seen_pos = False
    for t in b['locals'][1 + skip:b['argc'] + 1]:
        ty = prog.ty(t)
        if ty.startswith('&mut') and ty.endswith('ErrorState'):
            out.append('err')
        elif 'state' not in out and re.match(r'&mut([\w:]*::)?(%s)(<.*>)?$' % '|'.join(map(re.escape, states)), ty):
            out.append('state')
        elif not seen_in and (inty is None or ty == inty) and ty.startswith('&'):
            out.append('input')
            seen_in = True
        elif not seen_pos and ty == 'usize':
            out.append('pos')
            seen_pos = True
        else:
            out.append('other')
    return out


def initial(j, cfg, si, bid, others, pos, skip_vals=(), inty=None):
    prog = cfg.progs[si]
    b = prog.bodies[bid]
    roles = classify_params(prog, b, len(skip_vals), inty, cfg.state_names[si])
    args = list(skip_vals)
    k = 0
    for i, r in enumerate(roles):
        if r == 'err':
            args.append(ERR)
        elif r == 'state':
            args.append(STATE)
        elif r == 'input':
            args.append(INPUT)
        elif r == 'pos':
            args.append(pos)
        else:
            if k >= len(others):
                ty = prog.ty(b['locals'][1 + len(skip_vals) + i])
                others.append(engine.UNIT if ty == '()' else j.fresh('u' if ty == 'usize' else ''))
            args.append(others[k])
            k += 1
    new_frame(j, si, prog, bid, args)


def explore(prod, cfg, ba, bb, label):
    """product of two bodies and of everything the comparison defers"""
    j = Joint()
    pos = j.fresh('u')
    others = []
    ita = inty_of(cfg, 0, ba)
    itb = inty_of(cfg, 1, bb)
    initial(j, cfg, 0, ba, others, pos, inty=ita)
    n = len(others)
    initial(j, cfg, 1, bb, others, pos, inty=itb)
    if len(others) != n:
        raise Mismatch('parameters of %s differ' % label)
    prod.run(j, label)
    drain(prod, cfg, label)


def inty_of(cfg, si, bid):
    m = cfg.__dict__.setdefault('in_ty', {})
    return m.get((si, '::'.join(cfg.progs[si].strip(cfg.progs[si].bodies[bid]['name']).split('::')[:-1])))


def drain(prod, cfg, label):
    while prod.obligations:
        o = prod.obligations.pop(0)
        j = Joint()
        # names in obligation values must not clash with fresh ones
        ids = set()
        engine.ids_in(o, ids)
        j.nid = max([i[1] for i in ids] + [0])
        if o[0] == 'clo':
            start_clo(prod, cfg, j, o[1], o[2])
        else:
            _, ba, aa, bb, ab = o
            fresh = {}
            pairs = []

            def conv(v):
                b, c = engine.split(v)
                if v in (ERR, STATE, INPUT):
                    return v
                if v[0] == 'int' or (b is not None and b[0] in ('id', 'app') and not has_clo(v)):
                    for w, f in pairs:
                        if w == v:
                            return f
                    f = j.fresh('u' if v[0] != 'int' else '')
                    pairs.append((v, f))
                    return f
                return v
            xa = [conv(v) for v in aa]
            xb = [conv(v) for v in ab]
            new_frame(j, 0, cfg.progs[0], ba, xa)
            new_frame(j, 1, cfg.progs[1], bb, xb)
        prod.run(j, label)


def has_clo(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'clo':
            return True
        return any(has_clo(x) for x in v)
    return False


def start_clo(prod, cfg, j, a, b):
    bodies = []
    for si, v in ((0, a), (1, b)):
        prog = cfg.progs[si]
        if v[0] == 'clo':
            bid = cfg.clo_body[si][v[1]]
            body = prog.bodies[bid]
            selfty = body['locals'][1]
            s0 = ('&', v) if selfty.startswith('&') else v
            bodies.append((bid, (s0,)))
        else:
            k = cfg.fn_const[si][v[1]]
            bid = k.get('res') or k['id']
            if bid not in prog.bodies:
                raise Inconclusive('function value %s has no body' % v[1])
            bodies.append((bid, ()))
    pos = j.fresh('u')
    others = []
    n = [cfg.progs[si].bodies[bodies[si][0]]['argc'] - len(bodies[si][1]) for si in (0, 1)]
    if n[0] != n[1]:
        raise Mismatch('a closure takes %d arguments, must take %d' % tuple(n))
    full = any('ErrorState' in t for t in cfg.progs[0].bodies[bodies[0][0]]['locals'][1:2 + n[0]])
    for si in (0, 1):
        bid, sk = bodies[si]
        if full:
            initial(j, cfg, si, bid, others, pos, sk)
        else:
            prog = cfg.progs[si]
            args = list(sk)
            for i in range(n[si]):
                if i >= len(others):
                    ty = prog.ty(prog.bodies[bid]['locals'][1 + len(sk) + i])
                    others.append(engine.UNIT if ty == '()' else j.fresh('u' if ty == 'usize' else ''))
                args.append(others[i])
            new_frame(j, si, prog, bid, args)


# ---------------------------------------------------------------------------
class Task:
    __slots__ = ('suite', 'gram', 'rule', 'ba', 'bb', 'what')

    def __init__(self, suite, gram, rule, ba, bb, what):
        self.suite, self.gram, self.rule, self.ba, self.bb, self.what = suite, gram, rule, ba, bb, what


def table_of(fields, rule, rules):
    """the field of the parse state that holds the memo table of a rule, whatever the naming scheme"""
    if rule + '_cache' in fields:
        return rule + '_cache'
    for f in fields:
        # a scheme is an affix that gives a field for every cached rule
        i = f.find(rule)
        if i >= 0 and all(f[:i] + r + f[i + len(rule):] in fields for r in rules):
            return f
    return None


def make_config(suite, cls=Config):
    """configuration and tasks; problems found while matching functions are returned too"""
    A, B = suite.A, suite.B
    cfg = cls(A, B)
    cfg.in_ty = {}
    tasks, problems = [], []
    for g in suite.grams:
        mod = g.name
        fa, fb = rule_fns(A, mod), rule_fns(B, mod)
        names = {emit.raw(r.name) for r in g.rules}
        pre = find_prefix(set(fa), names)
        preb = find_prefix(set(fb), names)
        st = [None, None]
        for si, fs in ((0, fa), (1, fb)):
            for b in fs.values():
                st[si] = st[si] or state_type(cfg.progs[si], b)
            if st[si]:
                cfg.state_names[si].add(st[si])
        inb = None
        for r in g.rules:
            n = emit.raw(r.name)
            b = fb.get(preb + n)
            if b is None:
                problems.append((mod, n, 'reference function missing'))
                continue
            cfg.rule_names[1][b['id']] = mod + '::' + n
            if inb is None:
                inb = B.ty(b['locals'][1])
            a = fa.get(pre + n)
            if a is None:
                problems.append((mod, n, 'no function is generated for rule `%s`' % n))
                continue
            cfg.rule_names[0][a['id']] = mod + '::' + n
            tasks.append(Task(suite.name, mod, n, a['id'], b['id'], 'rule'))
        cfg.in_ty[(1, mod)] = inb
        cfg.in_ty[(0, mod)] = inb
        # public parsers
        for r in g.rules:
            if r.vis is None:
                continue
            n = emit.raw(r.name)
            a = [b for m, b in fns_of(A, mod) if m == mod + '::' + n]
            b = [b for m, b in fns_of(B, mod) if m == mod + '::' + n]
            if not b:
                problems.append((mod, n, 'reference parser missing'))
            elif not a:
                problems.append((mod, n, 'no parser function is generated for public rule `%s`' % n))
            else:
                tasks.append(Task(suite.name, mod, n, a[0]['id'], b[0]['id'], 'parser'))
        # memo tables: one per cached rule
        cached = [r for r in g.rules if r.cache]
        sa, sb = ([a for a in P.adts.values() if P.strip(a['name']) == '%s::%s' % (mod, st[si])] for si, P in ((0, A), (1, B)))
        if cached and not sa:
            problems.append((mod, cached[0].name, 'no parse state for cached rules'))
        if sa and sb:
            fields, fieldb = ([f[0] for f in x[0]['variants'][0]['fields']] for x in (sa, sb))
            pa, pb = ([table_of(fs, emit.raw(r.name), [emit.raw(x.name) for x in cached]) for r in cached] for fs in (fields, fieldb))
            for r, x, y in zip(cached, pa, pb):
                if x is None:
                    problems.append((mod, r.name, 'no memo table for cached rule `%s`' % r.name))
                elif x != y and y is not None:
                    cfg.cache_map[x] = y
    return cfg, tasks, problems


_cur = {}


class GrammarConfig(Config):
    """operations of the token stream are opaque questions about the input"""

    def classify(self, side, k, canon):
        r = Config.classify(self, side, k, canon)
        if r is None and 'FlatTokenStream::' in canon:
            return ('query', 'tokens::' + canon.split('::')[-1])
        return r


GrammarSuite.config = GrammarConfig
PairSuite.config = Config
Suite.config = Config


def run_one(i):
    cfg, tasks = _cur['cfg'], _cur['tasks']
    t = tasks[i]
    prod = Product(cfg)
    t0 = time.time()
    r = {'i': i, 'ok': True}
    try:
        explore(prod, cfg, t.ba, t.bb, t.gram + '::' + t.rule)
    except Mismatch as e:
        r['ok'] = False
        r['msg'] = str(e)
        r['trail'] = list(getattr(e, 'trail', ()))[-12:]
        ea = getattr(e, 'ea', None)
        r['span'] = ea.span if ea is not None else ''
        r['raw'] = ea.raw if ea is not None else ''
    except Inconclusive as e:
        r['ok'] = False
        r['msg'] = 'not decided: ' + str(e)
        r['trail'] = []
        r['inconclusive'] = True
    except RecursionError:
        r['ok'] = False
        r['msg'] = 'not decided: analysis recursion limit'
        r['trail'] = []
        r['inconclusive'] = True
    except Exception as e:
        r['ok'] = False
        r['msg'] = 'not decided: internal error %s: %s' % (type(e).__name__, e)
        r['trail'] = traceback.format_exc().splitlines()[-6:]
        r['inconclusive'] = True
    r.update(states=prod.nstates, events=prod.nevents, steps=prod.nsteps, obl=len(prod.obl_seen), t=time.time() - t0,
             unmodelled=sorted(prod.unmodelled), bodies=sorted(prod.bodies_seen[0]), consts=sorted(c for c in prod.consts if isinstance(c, int)))
    return r


def run_tasks(cfg, tasks, jobs=8):
    _cur['cfg'], _cur['tasks'] = cfg, tasks
    gc.collect()
    gc.freeze()             # the compiler's facts stay; do not walk them again and again
    gc.set_threshold(50000, 20, 100)
    if len(tasks) <= 3 or jobs == 1:
        return [run_one(i) for i in range(len(tasks))]
    with Pool(min(jobs, len(tasks))) as p:
        return p.map(run_one, range(len(tasks)), chunksize=max(1, min(8, len(tasks) // (jobs * 4))))


def analyse(suite, select=None, jobs=8):
    cfg, tasks, problems = make_config(suite, suite.config)
    if select:
        tasks = [t for t in tasks if select(t)]
    res = run_tasks(cfg, tasks, jobs)
    return cfg, tasks, problems, res


if __name__ == '__main__':
    # python3 -m pegcheck.run FILE...: development aid
    texts = open(sys.argv[1]).read().split('\n---\n')
    s = Suite('dev', texts)
    t0 = time.time()
    try:
        if not s.build():
            for m in s.msgs_a:
                print(m['rendered'])
            sys.exit(1)
    except build.BuildFailed as e:
        print(e, e.raw)
        sys.exit(1)
    t1 = time.time()
    jobs = 1 if len(sys.argv) > 2 else 8
    cfg, tasks, problems, res = analyse(s, (lambda t: t.rule == sys.argv[2]) if len(sys.argv) > 2 else None, jobs)
    for p in problems:
        print('PROBLEM', p)
    for r in res:
        t = tasks[r['i']]
        print('%-8s %s::%s %s states=%d events=%d %.2fs' % ('ok' if r['ok'] else 'FAIL', t.gram, t.rule, t.what, r['states'], r['events'], r['t']))
        if not r['ok']:
            print('    ', r['msg'])
            print('    ', r.get('span'))
            for x in r['trail']:
                print('       ', x)
    print('build %.1f analyse %.1f' % (t1 - t0, time.time() - t1), 'unmodelled', sorted(set(u for r in res for u in r['unmodelled'])))
