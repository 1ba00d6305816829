"""The token-stream input of the macro against its reference (spec/tok.rs)."""
import os, re
from . import build, engine, facts, models, rt, run
from .engine import Event, Inconclusive, Joint, Mismatch, UNIT, add, assume, decide, mkcmp, split, show
from .rt import RtStep, RtConfig, ROOT, LIT, POS, POS2

TOKV = ('app', 'vecof', (ROOT,))
DEPS = '\nproc-macro2 = "1.0.24"\n'
TOK = {}


def tok(*names):
    def d(f):
        for n in names:
            TOK[n] = f
        return f
    return d


class TokStep(RtStep):
    sync = False        # accesses of tokens are observed (functions with loops)

    def root_of(self, sd, v):
        x = v
        for _ in range(8):
            if x[0] == 'ref':
                x = self.load(sd, x[1], x[2])
            elif x[0] == '&':
                x = x[1]
            elif x[0] == 'app' and x[1] == 'deref':
                x = x[2][0]
            else:
                break
        if x == TOKV:
            return ROOT
        return RtStep.root_of(self, sd, v)

    def project(self, v, e):
        if e[0] == 'i' and v[0] == 'seq':
            return v[1][self.at(v, e[1])][1]
        return RtStep.project(self, v, e)

    def update(self, v, path, val):
        if path and path[0][0] == 'i' and v[0] == 'seq':
            i = self.at(v, path[0][1])
            x = self.update(v[1][i][1], path[1:], val)
            return ('seq', v[1][:i] + (('one', x),) + v[1][i + 1:])
        return RtStep.update(self, v, path, val)

    def seqlen(self, items):
        n = ('int', 0)
        for it in items:
            n = self.binop(self.cur, 'Add', n, ('int', 1) if it[0] == 'one' else it[2])
        return n

    def at(self, v, idx):
        for i, it in enumerate(v[1]):
            if it[0] == 'one' and self.seqlen(v[1][:i]) == self.cur.pin(idx):
                return i
        raise Inconclusive('element %s of %s' % (show(idx), v[1]))

    def call_const(self, j, si, fr, t, k, args):
        self.cur = j
        canon = re.sub(r'::<impl [^>]*>', '', self.cfg.progs[si].callee(k))
        m = TOK.get(canon)
        if m is not None:
            r = m(self, j, si, fr, t, k, args)
            if r is not NotImplemented:
                return r
        bid = k.get('res') or k['id']
        if self.recursive(si, bid):
            return self.event(j, si, fr, t, 'rec', 'rec', args, callee=bid)
        return RtStep.call_const(self, j, si, fr, t, k, args)

    def recursive(self, si, bid):
        b = self.cfg.progs[si].bodies.get(bid)
        if b is None:
            return False
        for blk in b['blocks']:
            t = blk['t']
            if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['t'] == 'fn' and (t[1][1].get('res') or t[1][1]['id']) == bid:
                return True
        return False

    def observe(self, j, si, t, p, v):
        """result of an access of token p: observed once per position"""
        if not self.sync or ('tok', (p,)) in j.memo:
            return v
        fr = j.sides[si].frames[-1]
        e = Event('tok', 'token', (p,), self.place(j, si, fr, t[3]), t[4], '', t[7], t[8])
        e.desc = v
        return [(j, e)]

    # ---- joint stepping
    def step(self, j, ea, eb):
        self.cur = j
        if ea.kind == 'panic' or eb.kind == 'panic':
            return []
        loose = ('ext', 'param', 'user')
        if ea.kind != eb.kind and (ea.kind in loose or eb.kind in loose or (ea.kind == 'tok' and eb.kind == 'rec')):
            raise Inconclusive('`%s` where the reference does `%s`' % (ea.show(), eb.show()))
        if ea.kind == eb.kind == 'tok':
            self.nevents += 1
            if not self.equal(j, ea.args[0], eb.args[0]):
                self.fail(j, 'looks at token %s where %s is required' % (show(ea.args[0]), show(eb.args[0])), ea, eb)
            # what earlier tokens were is forgotten
            j.memo = {}
            p = eb.args[0]
            far = [op for op in ('lt', 'le') if p != POS and decide(j, mkcmp(op, POS, p))][:1]
            for f in [f for f in j.facts if mentions(f, ea.args[0])]:
                del j.facts[f]
            j.memo[('tok', ea.args)] = ('int', 1)
            j.memo[('tok', eb.args)] = ('int', 1)
            # a group ends behind its opening
            n = ('app', 'fld', (('app', 'index', (('app', 'deref', (ROOT,)), p)), 'Begin', 1))
            assume(j, mkcmp('lt', p, n), True)
            if far:
                assume(j, mkcmp(far[0], POS, p), True)
                assume(j, mkcmp('lt', POS, n), True)
            for si, e in ((0, ea), (1, eb)):
                self.put(j.sides[si], e.dest[0], e.dest[1], e.desc)
                j.sides[si].frames[-1].bb = e.target
            return [j]
        if ea.kind == eb.kind == 'rec':
            self.nevents += 1
            return self.rec(j, ea, eb)
        if ea.kind == eb.kind == 'ext':
            self.nevents += 1
            if ea.name != eb.name:
                raise Inconclusive('`%s` where the reference does `%s`' % (ea.show(), eb.show()))
            if len(ea.args) != len(eb.args) or not all(self.equal(j, x, y) for x, y in zip(ea.args, eb.args)):
                self.fail(j, 'does `%s` where `%s` is required' % (ea.show(), eb.show()), ea, eb)
            for i, a, p in ea.muts:
                for i2, a2, p2 in eb.muts:
                    if i == i2:
                        n = j.fresh()
                        self.put(j.sides[0], a, p, n)
                        self.put(j.sides[1], a2, p2, n)
            v = UNIT if ea.dty == '()' else j.fresh('u' if ea.dty == 'usize' else '')
            self.finish(j, ea, eb, v)
            return [j]
        return RtStep.step(self, j, ea, eb)

    def rec(self, j, ea, eb):
        xa, xb = [[self.snap(j.sides[si], x) for x in e.callee[1]] for si, e in ((0, ea), (1, eb))]
        sa, sb = [[i for i, x in enumerate(xs) if x[0] == '&' and x[1][0] == 'seq'] for xs in (xa, xb)]
        if len(xa) != len(xb) or sa != sb:
            raise Inconclusive('recursion with other parameters')
        for i, (x, y) in enumerate(zip(xa, xb)):
            if i in sa:
                # everything before is only appended to: what matters is where the callee starts
                lx, ly = self.seqlen(x[1][1]), self.seqlen(y[1][1])
                if not self.equal(j, lx, ly):
                    self.fail(j, 'recurses with %s tokens so far where %s are required' % (show(lx), show(ly)), ea, eb)
            elif not self.equal(j, x, y):
                self.fail(j, 'recurses with %s where %s is required' % (show(x), show(y)), ea, eb)
        j.trail = j.trail + (eb.show(),)
        self.recs.add((ea.callee[0], eb.callee[0]))
        if sa:
            seg = ('seg', j.fresh(), j.fresh('u'))
            for si, e in ((0, ea), (1, eb)):
                for i in sa:
                    a, p = self.target(e.callee[1][i])
                    for _ in range(4):
                        x = self.load(j.sides[si], a, p)
                        if x[0] == 'ref':
                            a, p = x[1], x[2]
                    self.put(j.sides[si], a, p, ('seq', x[1] + (seg,)))
        v = UNIT if ea.dty == '()' else None
        if v is None:
            ra = re.match(r'(?:\w+::)*RuleResult<(.*)>$', ea.dty)
            if not ra:
                raise Inconclusive('recursion returning ' + ea.dty)
            out = []
            for matched in (True, False):
                j2 = j.copy()
                v = ('adt', 'RuleResult', 'Matched', ((0, j2.fresh('u')), (1, UNIT if ra.group(1) == '()' else j2.fresh()))) if matched else ('adt', 'RuleResult', 'Failed', ())
                self.finish(j2, ea, eb, v)
                out.append(j2)
            return out
        self.finish(j, ea, eb, v)
        return [j]

    def widen(self, j):
        # runs of appended segments that both sides have
        seqs = [[(a, v) for a, v in sd.store.items() if v[0] == 'seq'] for sd in j.sides]
        if len(seqs[0]) == len(seqs[1]) == 1:
            (a, x), (b, y) = seqs[0][0], seqs[1][0]
            i, k = len(x[1]), len(y[1])
            n = 0
            while n < min(i, k) and x[1][i - 1 - n] == y[1][k - 1 - n] and x[1][i - 1 - n][0] == 'seg':
                n += 1
            if n > 1:
                gone = {s[2] for s in x[1][i - n:]}
                new = ('seg', j.fresh(), j.fresh('u'))
                j.sides[0].store[a] = ('seq', x[1][:i - n] + (new,))
                j.sides[1].store[b] = ('seq', y[1][:k - n] + (new,))
                for sd in j.sides:
                    for v in sd.store.values():
                        s = set()
                        engine.ids_in(v, s)
                        if s & gone:
                            raise Inconclusive('count of appended tokens is kept in a variable')
        # positions a few steps on
        m = {}

        def forget(v):
            # any position that is as far from the start as this one
            if v not in m:
                n = m[v] = j.fresh('u')
                for op in ('lt', 'le'):
                    if decide(j, mkcmp(op, POS, v)):
                        assume(j, mkcmp(op, POS, n), True)
                        break
            return m[v]

        # positions counted from the same place keep their distances
        lins = set()

        def find(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == 'lin':
                    lins.add(v)
                for x in v:
                    find(x)
        for sd in j.sides:
            for v in sd.store.values():
                find(v)
        least = {}
        for v in lins:
            if v[1] > 3:
                least[v[2]] = min(x[1] for x in lins if x[2] == v[2] and x[1] > 0)

        def walk(v):
            if not isinstance(v, tuple) or not v or v[0] in ('id', 'int', 'str'):
                return v
            if v in m:
                return m[v]
            if v[0] == 'lin' and v[1] > 0 and v[2] in least:
                m[v] = add(forget(add(v[2], least[v[2]])), v[1] - least[v[2]])
                return m[v]
            return tuple(walk(x) if isinstance(x, tuple) else x for x in v)
        if self.sync:
            for si, sd in enumerate(j.sides):
                us = {f.uid: self.cfg.progs[si].bodies[f.body]['locals'] for f in sd.frames}
                for a, v in list(sd.store.items()):
                    if a[0] == 'L' and a[1] in us and us[a[1]][a[2]] == 'usize' and mentions(v, None):
                        b, c = split(v)
                        m[v] = add(forget(b), c)
        for si, sd in enumerate(j.sides):
            for a, v in list(sd.store.items()):
                w = walk(v)
                if w != v:
                    sd.store[a] = w
        for (n, args), v in list(j.memo.items()):
            w = tuple(walk(x) for x in args)
            if w != args:
                del j.memo[(n, args)]
                j.memo[(n, w)] = walk(v)
        if m:
            def sub(v):
                if not isinstance(v, tuple):
                    return v
                if v in m:
                    return m[v]
                return tuple(sub(x) for x in v)
            for f, r in list(j.facts.items()):
                g = sub(f)
                if g != f and g not in j.facts and g[0] in ('-', 'app'):
                    j.facts[g] = r
        RtStep.widen(self, j)


def mentions(v, p):
    """a token at a position other than p"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'app' and v[1] == 'index' and v[2][1] != p:
        return True
    return any(mentions(x, p) for x in v)


# ---- library models ----------------------------------------------------------------
def is_vec(t, i):
    return 'Vec<' in t[5][i]


def get_at(e, j, si, t, r, idx, wrap):
    p = idx
    def yes(j2):
        v = ('&', ('app', 'index', (('app', 'deref', (r,)), p)))
        return e.observe(j2, si, t, p, rt.some(v) if wrap else v)
    return e.fork(j, si, t, mkcmp('lt', p, e.rt_length(j, j.sides[si], r)), yes, lambda j2: rt.NONE if wrap else None)


@tok('slice::get', 'vec::Vec::get')
def slice_get(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r != ROOT or a[1][0] not in ('int', 'id', 'lin', 'app'):
        return NotImplemented
    return get_at(e, j, si, t, r, a[1], True)


@tok('Deref::deref', 'DerefMut::deref_mut', 'vec::Vec::as_slice', 'AsRef::as_ref')
def deref(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    if e.root_of(sd, a[0]) == ROOT or place_of(e, sd, a[0])[2][0] == 'seq':
        return e.ret_to(j, si, fr, t, a[0])
    return NotImplemented


@tok('Index::index')
def index(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    v = models.deref_term(e, sd, a[0]) if a[0][0] in ('ref', '&') else a[0]
    if v[0] == 'seq':
        return e.ret_to(j, si, fr, t, ('&', e.project(v, ('i', a[1]))))
    r = e.root_of(sd, a[0])
    if r != ROOT or a[1][0] not in ('int', 'id', 'lin', 'app'):
        return NotImplemented
    return get_at(e, j, si, t, r, a[1], False)


def place_of(e, sd, v):
    a, p = e.target(v)
    for _ in range(5):
        x = e.load(sd, a, p)
        if x[0] == 'ref':
            a, p = x[1], x[2]
        else:
            return a, p, x
    raise Inconclusive('reference to reference')


@tok('vec::Vec::new', 'vec::Vec::with_capacity')
def vec_new(e, j, si, fr, t, k, a):
    if 'tokens::Token>' not in e.cfg.progs[si].ty(t[6]):
        return NotImplemented
    return e.ret_to(j, si, fr, t, ('seq', ()))


@tok('Default::default', 'proc_macro2::TokenStream::new')
def ts_new(e, j, si, fr, t, k, a):
    ty = e.cfg.progs[si].ty(t[6])
    if ty.endswith('TokenStream'):
        return e.ret_to(j, si, fr, t, ('vec', ('nil',), ('int', 0)))
    if 'Vec<' in ty and 'tokens::Token>' in ty:
        return e.ret_to(j, si, fr, t, ('seq', ()))
    return NotImplemented


@tok('vec::Vec::push')
def vec_push(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    ad, p, v = place_of(e, sd, a[0])
    if v[0] != 'seq':
        return NotImplemented
    e.put(sd, ad, p, ('seq', v[1] + (('one', e.snap(sd, a[1])),)))
    return e.ret_to(j, si, fr, t, UNIT)


@tok('vec::Vec::len', 'slice::len')
def vec_len(e, j, si, fr, t, k, a):
    ad, p, v = place_of(e, j.sides[si], a[0])
    if v[0] != 'seq':
        return NotImplemented
    return e.ret_to(j, si, fr, t, e.seqlen(v[1]))


@tok('IndexMut::index_mut', 'slice::get_mut')
def index_mut(e, j, si, fr, t, k, a):
    ad, p, v = place_of(e, j.sides[si], a[0])
    if v[0] != 'seq':
        return NotImplemented
    i = e.at(v, a[1])
    r = ('ref', ad, p + (('i', e.seqlen(v[1][:i])),))
    return e.ret_to(j, si, fr, t, rt.some(r) if k['name'].endswith('get_mut') else r)


@tok('Iterator::collect', 'FromIterator::from_iter')
def collect(e, j, si, fr, t, k, a):
    if e.cfg.progs[si].ty(t[6]).endswith('TokenStream'):
        v = a[0]
        if v[0] == 'app' and v[1].endswith('into_iter'):
            v = v[2][0]
        if v[0] == 'seq' and all(x[0] == 'one' for x in v[1]):
            w = ('vec', ('nil',), ('int', 0))
            for x in v[1]:
                w = push1(j, w, x[1])
            v = w
        if v[0] == 'vec':
            return e.ret_to(j, si, fr, t, v)
        raise Inconclusive('collects ' + show(v))
    return NotImplemented


TREES = ('Group', 'Ident', 'Punct', 'Literal')


@tok('Into::into', 'From::from')
def into(e, j, si, fr, t, k, a):
    prog = e.cfg.progs[si]
    src, dst = prog.ty(t[5][0]).split('::')[-1], prog.ty(t[6])
    if dst.endswith('TokenTree') and src in TREES:
        return e.ret_to(j, si, fr, t, ('adt', dst, src, ((0, a[0]),)))
    if dst.endswith('TokenStream') and a[0][0] == 'adt' and src == 'TokenTree':
        return e.ret_to(j, si, fr, t, push1(j, ('vec', ('nil',), ('int', 0)), a[0]))
    return NotImplemented


def push1(j, v, x):
    c = ('push', v[1], x)
    i = j.alias.get(c)
    if i is None:
        i = j.alias[c] = j.fresh('v')
    return ('vec', i, add(v[2], 1))


@tok('Extend::extend', 'proc_macro2::TokenStreamExt::append', 'quote::TokenStreamExt::append')
def extend(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    ad, p, v = place_of(e, sd, a[0])
    x = e.snap(sd, a[1])
    if v[0] != 'vec':
        return NotImplemented
    if x[0] == 'adt' and x[1] == rt.OPT:
        xs = [y for _, y in x[3]]
    elif x[0] == 'arr':
        xs = list(x[1])
    elif x[0] == 'app' and x[1].endswith('once'):
        xs = [x[2][0]]
    elif x[0] == 'adt' and x[1].endswith('TokenTree'):
        xs = [x]
    elif x[0] == 'vec':
        raise Inconclusive('extends by a list')
    else:
        return NotImplemented
    for y in xs:
        if y[0] == 'app' and y[1].endswith('TokenTree'):
            return NotImplemented
        v = push1(j, v, y)
    e.put(sd, ad, p, v)
    return e.ret_to(j, si, fr, t, UNIT)


@tok('PartialEq::eq', 'PartialEq::ne')
def peq(e, j, si, fr, t, k, a):
    """an identifier compared with a string is its text compared with it"""
    sd = j.sides[si]
    neg = k['method'] == 'ne'
    x, y = (models.deref_term(e, sd, v) for v in a)
    tx, ty = (re.sub(r"^(&('\w+ )?(mut )?)+", '', s).split('::')[-1] for s in t[5][:2])
    if tx == 'Ident':
        x, tx = ('app', 'ToString::to_string', (('&', x),)), 'String'
    if ty == 'Ident':
        y, ty = ('app', 'ToString::to_string', (('&', y),)), 'String'
    if tx in ('String', 'str') and ty in ('String', 'str') and 'String' in (tx, ty):
        c = mkcmp('eq', textof(x), textof(y))
        return e.ret_to(j, si, fr, t, engine.bneg(c) if neg else c)
    if tx in ('Delimiter', 'Spacing') and tx == ty:
        # unit-only enums: equality of tags
        xs = [e.discr(si, v, 'proc_macro2::' + tx) for v in (x, y)]
        c = mkcmp('eq', *xs)
        return e.ret_to(j, si, fr, t, engine.bneg(c) if neg else c)
    return NotImplemented


def textof(v):
    """the string behind references and conversions"""
    for _ in range(6):
        if v[0] == '&':
            v = v[1]
        elif v[0] == 'app' and (v[1] == 'deref' or v[1].endswith(('as_str', 'Deref::deref', 'as_ref'))):
            v = v[2][0]
        else:
            break
    return v


@tok('str::starts_with')
def starts_char(e, j, si, fr, t, k, a):
    if t[5][1] != 'char':
        return NotImplemented
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    root, lo, hi = e.bounds(r)
    return e.fork(j, si, t, mkcmp('lt', lo, hi), lambda j2: mkcmp('eq', ('app', 'charat', (root, lo)), a[1]), lambda j2: ('int', 0))


@tok('ToString::to_string')
def to_string(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    return e.ret_to(j, si, fr, t, ('app', 'ToString::to_string', (('&', models.deref_term(e, sd, a[0])),)))


# ---- tasks ---------------------------------------------------------------------------
def reference():
    ok, ms, fx = build.spec('spec_tok', {'src/lib.rs': 'pub mod tokens;\n', 'src/tokens.rs': open(os.path.join(build.VERIF, 'spec', 'tok.rs')).read()}, DEPS)
    if not ok:
        raise build.BuildFailed('reference of the token stream does not compile', [m for m in ms if m['level'] == 'error'], ms[0]['rendered'] if ms else '')
    return facts.Program([os.path.join(fx, 'spec_tok.json'), os.path.join(fx, 'peg+std.json')], ['spec_tok', 'peg'])


def subject():
    ok, ms, fx = build.wit('wit_base', rt.BASE)
    if not ok:
        raise build.BuildFailed('the tree does not build', [m for m in ms if m['level'] == 'error'])
    return facts.Program([os.path.join(fx, 'peg_macros.json'), os.path.join(fx, 'peg_runtime.json')], ['peg_macros', 'peg_runtime', 'peg'])


FUNCS = (
    # name, trait, arguments after the stream, loops
    ('new', None, None, True),
    ('start', 'Parse', [], False),
    ('is_eof', 'Parse', [POS], False),
    ('position_repr', 'Parse', [POS], False),
    ('parse_elem', 'ParseElem', [POS], False),
    ('next_span', None, [POS], False),
    ('ident', None, [POS], False),
    ('literal', None, [POS], False),
    ('group', None, [POS, ('id', -17, '')], False),
    ('eat_until', None, [POS, ('id', -17, 'u')], True),
    ('parse_string_literal', 'ParseLiteral', [POS, LIT], False),
    ('parse_slice', 'ParseSlice', [POS, POS2], True),
)


def shape(prog, suffix):
    for aid, a in prog.adts.items():
        n = prog.adt_name(aid)
        if n.split('::')[-1] == suffix and 'proc_macro2' not in aid:
            return n, [(v['name'], tuple(prog.ty(f[1]).replace(n.rsplit('::', 1)[0] + '::', '') for f in v['fields'])) for v in a['variants']]
    return None, None


def find(A, name, trait):
    for bid, b in A.bodies.items():
        if b.get('kind') != 'fn':
            continue
        n = A.strip(b['name'])
        if trait is None and n.split('::')[-2:] == ['FlatTokenStream', name]:
            return bid
        if trait and re.match(r'<.*FlatTokenStream as (?:\w+::)*%s(<.*>)?>::%s$' % (trait, name), n):
            return bid
    return None


def stream(prog):
    n = [(prog.adt_name(aid), a) for aid, a in prog.adts.items() if prog.adt_name(aid).split('::')[-1] == 'FlatTokenStream']
    name, a = n[0]
    f = [x[0] for x in a['variants'][0]['fields'] if 'Vec<' in x[1]]
    return ('&', ('adt', name, '', ((f[0] if not f[0].isdigit() else int(f[0]), TOKV),)))


def start_new(prod, j, A, B, ba, bb):
    n = j.fresh()
    for si, prog, bid in ((0, A, ba), (1, B, bb)):
        run.new_frame(j, si, prog, bid, [n])


def start_rec(prod, j, A, B, ba, bb):
    """one level of the recursion, on any tokens so far"""
    seg = ('seg', j.fresh(), j.fresh('u'))
    fresh = []
    objs = []
    for si, prog, bid in ((0, A, ba), (1, B, bb)):
        b = prog.bodies[bid]
        args = []
        k = 0
        for t in b['locals'][1:b['argc'] + 1]:
            ty = prog.ty(t)
            if ty.startswith('&mut') and 'Vec<' in ty:
                ad = ('O', ('id', -9, 'V'))
                j.sides[si].store[ad] = ('seq', (seg,))
                args.append(('ref', ad, ()))
                objs.append((si, ad))
                continue
            if 'FlatTokenStream' in ty:
                args.append(stream(prog))
                continue
            if k == len(fresh):
                fresh.append(LIT if 'str' in ty else j.fresh('u' if ty == 'usize' else ''))
            args.append(fresh[k])
            k += 1
        run.new_frame(j, si, prog, bid, args)
    return objs


class FlatStep(TokStep):
    """one level of flattening: what was appended is compared at the end"""
    objs = ()

    def step(self, j, ea, eb):
        if ea.kind == eb.kind == 'ret' and self.objs:
            self.cur = j
            self.nevents += 1
            x, y = [j.sides[si].store[ad] for si, ad in self.objs]
            self.cmp_seq(j, x, y, ea, eb)
            return []
        return TokStep.step(self, j, ea, eb)

    def cmp_seq(self, j, x, y, ea, eb):
        if x[0] != 'seq' or len(x[1]) != len(y[1]):
            self.fail(j, 'appends %d pieces where %d are required' % (len(x[1]), len(y[1])), ea, eb)
        for p, q in zip(x[1], y[1]):
            if p[0] != q[0] or not self.equal(j, p[1], q[1]):
                self.fail(j, 'appends %s where %s is required' % (show(p[1]), show(q[1])), ea, eb)

    def same(self, j, x, y, ea, eb):
        def seq(v):
            if v[0] == 'adt' and len(v[3]) == 1 and v[3][0][1][0] == 'seq':
                return v[3][0][1]
        if seq(x) and seq(y):
            return self.cmp_seq(j, seq(x), seq(y), ea, eb)
        if y[0] == 'vec' and x[0] != 'vec':
            raise Inconclusive('token stream built as %s' % show(x))
        return TokStep.same(self, j, x, y, ea, eb)


def check(ctx):
    A, B = subject(), reference()
    for n in ('Token', 'FlatTokenStream'):
        sa, sb = shape(A, n)[1], shape(B, n)[1]
        if sa is None or sorted(sa) != sorted(sb):
            ctx.count('not decided')
            ctx.note('NOT DECIDED: type %s is not the one the reference describes (%s)' % (n, sa))
            return
    done = set()
    work = []
    for name, trait, args, loops in FUNCS:
        ba = find(A, name, trait)
        bb = rt.fn(B, 'tokens::' + name)
        if ba is None:
            ctx.note('NOT DECIDED %s: no such function of the token stream' % name)
            ctx.count('not decided')
            continue
        work.append((name, ba, bb, args, loops, False))
    while work:
        name, ba, bb, args, loops, rec = work.pop(0)
        if (ba, bb, rec) in done:
            continue
        done.add((ba, bb, rec))
        ctx.count('programs')
        cfg = RtConfig(A, B)
        prod = FlatStep(cfg)
        prod.sync = loops
        prod.known_bounds = set()
        prod.recs = set()
        j = Joint()
        try:
            if rec:
                objs = start_rec(prod, j, A, B, ba, bb)
                if objs:
                    prod.objs = objs
            elif args is None:
                start_new(prod, j, A, B, ba, bb)
            else:
                for si, prog, bid in ((0, A, ba), (1, B, bb)):
                    run.new_frame(j, si, prog, bid, [stream(prog)] + args)
            prod.run(j, name)
            ctx.sample('%s: %d joint states, %d events agree' % (name, prod.nstates, prod.nevents))
            for x, y in sorted(prod.recs):
                if (x, y) != (ba, bb) or args is None or rec:
                    work.append((name + ' (recursion)', x, y, None, loops, True))
        except Mismatch as m:
            ev = getattr(m, 'ea', None)
            ctx.violation('%s %s' % (name, m), 'token stream: %s (%s)\n%s\nat: %s\npath: %s' % (
                name, A.bodies[ba]['span'], m, ev.span if ev is not None else '', '; '.join(getattr(m, 'trail', ()))))
        except (Inconclusive, RecursionError) as m:
            ctx.count('not decided')
            ctx.note('NOT DECIDED %s: %s' % (name, m))
        ctx.count('states', prod.nstates)
        ctx.count('events', prod.nevents)
        ctx.count('mir_steps', prod.nsteps)
        for u in prod.unmodelled:
            if u not in ctx.notes:
                ctx.notes.append(u)
