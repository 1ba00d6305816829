"""Product analysis of the runtime's own functions against reference functions (spec/rt.rs).

Same engine as for generated code, with transfer functions for the string, slice and iterator
operations such code uses.  A slice of the input is the term sub(root, lo, hi); elements, characters,
literal comparison and character boundaries are terms over root and offset, so that different ways of
writing the same access get the same name.  Loops and iterator chains over a slice are summarised into
counting terms by classifying, for every element value, what one step does.
"""
import ast, os, re, sys, time, traceback
from . import build, engine, facts, models, run
from .engine import Product, Config, Joint, Frame, Event, Mismatch, Inconclusive, UNIT, mkcmp, bneg, decide, assume, add, split, show

ROOT = ('id', -10, 'S')
LIT = ('id', -11, 'S')
OPT = 'option::Option'
FULL = {'bytes': 255, 'chars': 0x10FFFF}
NL = ((10, 10),)
CONT = ((0x80, 0xBF),)


def some(x):
    return ('adt', OPT, 'Some', ((0, x),))


NONE = ('adt', OPT, 'None', ())


# ---- sets of element values as sorted disjoint ranges ----------------------
def rset(rs):
    out = []
    for a, b in sorted(rs):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def rcompl(s, hi):
    out, at = [], 0
    for a, b in s:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= hi:
        out.append((at, hi))
    return tuple(out)


def rinter(s, t):
    return rset([(max(a, c), min(b, d)) for a, b in s for c, d in t])


def runion(s, t):
    return rset(list(s) + list(t))


def of_facts(r, hi):
    lo, h, ex = r
    s = ((max(lo or 0, 0), hi if h is None else min(h, hi)),)
    if s[0][0] > s[0][1]:
        return ()
    return rinter(s, rcompl(rset([(e, e) for e in ex]), hi))


def to_chars(s):
    """set of characters counted by a set of bytes, if counting bytes in it counts characters"""
    if rinter(s, CONT):
        return None
    asc = rinter(s, ((0, 127),))
    lead = rinter(s, ((0xC0, 0xFF),))
    need = ((0xC2, 0xF4),)
    if not rinter(lead, need):
        return asc
    if rinter(lead, need) == need:
        return runion(asc, ((128, 0x10FFFF),))
    return None


class RtConfig(Config):
    pure_traits = ('Parse',)
    query_traits = ()
    user_prefixes = ()
    ignore = ()
    max_states = 3000
    max_steps = 20000
    max_seconds = 60

    def is_mark(self, side, k):
        return False


class Undecided(Exception):
    pass


class RtProduct(Product):
    """mode 'result': panics are not looked at; mode 'panic': only panics are"""
    mode = 'result'

    def __init__(self, cfg):
        Product.__init__(self, cfg)
        self.out = [(), ()]
        self.folds = 0

    # ---- terms ---------------------------------------------------------
    def bounds(self, v):
        """(root, lo, hi) of a slice reference"""
        if v[0] == 'app' and v[1] == 'sub':
            return v[2]
        return (v, ('int', 0), self.total(v))

    def total(self, root):
        if root[0] == 'str':
            return ('int', len(root[1].encode()))
        if root[0] == '&' and root[1][0] == 'vec':
            return root[1][2]
        if root[0] == '&' and root[1][0] == 'arr':
            return ('int', len(root[1][1]))
        return ('app', 'len', (('app', 'deref', (root,)),))

    def rt_length(self, j, sd, v):
        r = self.root_of(sd, v)
        if r is None:
            return None
        _, lo, hi = self.bounds(r)
        return self.minus(j, hi, lo)

    def minus(self, j, a, b):
        return j.pin(self.binop(j, 'Sub', a, b))

    def plus(self, j, a, b):
        return self.binop(j, 'Add', a, b)

    def root_of(self, sd, v):
        """the slice reference behind possibly several references; None for something else"""
        for _ in range(8):
            if v[0] == 'ref':
                v = self.load(sd, v[1], v[2])
            elif v[0] == 'app' and v[1] in ('deref',):
                v = v[2][0]
            elif v[0] == '&' and (v[1][0] in ('id', 'str', '&') or v[1][0] == 'app' and v[1][1] in ('sub', 'deref')):
                v = v[1]
            else:
                break
        if v[0] == 'app' and v[1] == 'sub' or v in (ROOT, LIT) or v[0] == 'str':
            return v
        return None

    def sub(self, j, v, lo, hi):
        """v[lo..hi] in canonical form; lo, hi relative to v"""
        root, a, b = self.bounds(v)
        lo = self.plus(j, a, lo)
        hi = self.plus(j, a, hi) if hi is not None else b
        if lo == ('int', 0) and hi == self.total(root):
            return root
        return ('app', 'sub', (root, lo, hi))

    def project(self, v, e):
        if e[0] == 'i':
            x = v[2][0] if v[0] == 'app' and v[1] == 'deref' else v
            if x[0] == 'app' and x[1] == 'sub':
                root, lo, hi = x[2]
                return ('app', 'index', (('app', 'deref', (root,)), self.binop(self.cur, 'Add', lo, e[1])))
            if v[0] == 'vec' or v[0] == 'setvec':
                return ('app', 'index', (v, e[1]))
        return Product.project(self, v, e)

    def load(self, sd, addr, path):
        if addr[0] == 'O' and addr[1][0] == 'str' and not path:
            return ('app', 'deref', (addr[1],))
        return Product.load(self, sd, addr, path)

    def boundary(self, j, root, p):
        if p == ('int', 0) or p == self.total(root) or p in self.known_bounds:
            return ('int', 1)
        for q in self.known_bounds | {('int', 0), self.total(root)}:
            if decide(j, mkcmp('eq', p, q)) is True:
                return ('int', 1)
        # next to an ASCII character, or one past a character whose start is known
        b, c = split(p)
        if b is not None and b[0] == 'app' and b[1] == 'after' and c in (0, -1) and all(y < 128 for _, y in b[2][3]):
            return ('int', 1)
        if p[0] == 'app' and p[1] == 'Add':
            for x in p[2]:
                if x[0] == 'app' and x[1] == 'len_utf8':
                    return ('int', 1)
        return ('app', 'bnd', (root, p))

    def const(self, j, si, k):
        if k['t'] == 'other' and isinstance(k.get('s'), str) and re.match(r'b"', k['s']):
            return ('bytes', k['s'])
        return Product.const(self, j, si, k)

    # comparison of whole slices
    def eqslices(self, j, x, y):
        """condition value: the two slices have equal content (lengths included)"""
        lx, ly = self.minus(j, *reversed(self.bounds(x)[1:])), self.minus(j, *reversed(self.bounds(y)[1:]))
        if x == y:
            return [(('int', 1), ('int', 1))]
        a, b = sorted((x, y), key=repr)
        return mkcmp('eq', lx, ly), ('app', 'eqbytes', (a, b))

    # ---- asserts and stepping ------------------------------------------
    def advance(self, j0, si):
        out = []
        work = [j0]
        steps = 0
        prog = self.cfg.progs[si]
        while work:
            j = work.pop()
            sd = j.sides[si]
            self.cur = j
            while True:
                steps += 1
                self.nsteps += 1
                if not self.nsteps & 255 and time.time() - self.born > self.cfg.max_seconds:
                    raise Inconclusive('not finished within %d s' % self.cfg.max_seconds)
                if steps > self.cfg.max_steps:
                    raise Inconclusive('loop that is not summarised in %s' % sd.frames[-1].body)
                fr = sd.frames[-1]
                b = prog.bodies[fr.body]
                blk = b['blocks'][fr.bb]
                for s in blk['s']:
                    if s[0] == '=':
                        self.stmt(j, si, fr, s)
                t = blk['t']
                k = t[0]
                if k == 'assert':
                    c = self.operand(j, si, fr, t[1])
                    want = bool(t[2])
                    if t[4].startswith('Overflow') and 'Sub' not in str(t[1]) and not self.is_sub(b, fr.bb, t):
                        fr.bb = t[3]
                        continue
                    d = decide(j, c)
                    if d is None:
                        j2 = j.copy()
                        if assume(j2, c, not want):
                            out.append((j2, Event('panic', t[4], span=t[5])))
                        if not assume(j, c, want):
                            break
                    elif d != want:
                        out.append((j, Event('panic', t[4], span=t[5])))
                        break
                    fr.bb = t[3]
                    continue
                if k == 'switch':
                    v = self.operand(j, si, fr, t[1])
                    if v[0] in ('id', 'app', 'lin'):
                        v = j.pin(v)
                    done = False
                    for val, bb in t[2]:
                        c = mkcmp('eq', v, ('int', val))
                        d = decide(j, c)
                        if d is True:
                            fr.bb = bb
                            done = True
                            break
                        if d is False:
                            continue
                        if b['blocks'][bb]['t'][0] != 'unreachable' or b['blocks'][bb]['s']:
                            j2 = j.copy()
                            if self.assume(j2, c, True):
                                j2.sides[si].frames[-1].bb = bb
                                work.append(j2)
                        if not self.assume(j, c, False):
                            done = None
                            break
                    if done is None:
                        break
                    if not done:
                        ob = t[3]
                        if b['blocks'][ob]['t'][0] == 'unreachable' and not b['blocks'][ob]['s']:
                            break
                        fr.bb = ob
                    continue
                r = self.terminator(j, si, sd, fr, b, t, out, work)
                if r:
                    break
        return out

    def terminator(self, j, si, sd, fr, b, t, out, work):
        k = t[0]
        if k == 'goto':
            fr.bb = t[1]
        elif k == 'drop':
            fr.bb = t[2]
        elif k == 'return':
            v = self.load(sd, ('L', fr.uid, 0), ())
            if b['locals'][0] == '()':
                v = UNIT
            if len(sd.frames) == 1:
                out.append((j, Event('ret', 'return', (self.snap(sd, v),), span=b['span'])))
                return True
            sd.frames.pop()
            up = sd.frames[-1]
            if fr.hook:
                v = ('adt', fr.hook[0], fr.hook[1], ((0, v),))
            self.put(sd, fr.ret[0], fr.ret[1], v)
            if fr.retbb is None:
                return True
            up.bb = fr.retbb
            self.sweep(sd, fr.uid)
        elif k in ('unreachable', 'resume'):
            return True
        elif k == 'call':
            r = self.call(j, si, fr, t)
            if r is None:
                return False
            if isinstance(r, Event):
                out.append((j, r))
                return True
            if r == 'dead':
                return True
            for x in r:
                if isinstance(x, tuple):
                    out.append(x)
                else:
                    work.append(x)
            return True
        else:
            raise Inconclusive('terminator ' + str(t)[:80])
        return False

    def is_sub(self, b, bb, t):
        """the overflow assert guards a subtraction"""
        loc = t[1][1][0]
        for s in reversed(b['blocks'][bb]['s']):
            if s[0] == '=' and s[1][0] == loc and not s[1][1]:
                return s[2][0] == 'bin' and s[2][1].startswith('Sub')
        return False

    def assume(self, j, c, val):
        if not assume(j, c, val):
            return False
        # equal content of a slice and a complete string makes the slice end a character boundary
        x = c
        neg = False
        while x[0] == 'not':
            x, neg = x[1], not neg
        if x[0] == 'cmp' and x[1][0] == 'app' and x[1][1] in ('eqbytes', 'bnd') and x[2] == 'eq':
            v = (x[3] == 1) == (val != neg) if x[3] in (0, 1) else None
            if x[3] == 0:
                v = not ((val != neg))
            x = x[1]
        else:
            v = val != neg
        if v and x[0] == 'app' and x[1] == 'eqbytes':
            for p in x[2]:
                root, lo, hi = self.bounds(p)
                if root == ROOT:
                    t = ('app', 'bnd', (root, hi))
                    if decide_known(j, t) is False:
                        return False
                    j.facts[t] = (1, 1, frozenset())
        if not v and x[0] == 'app' and x[1] == 'bnd':
            for t, r in list(j.facts.items()):
                if t[0] == 'app' and t[1] == 'eqbytes' and decide_known(j, t) is not False:
                    for p in t[2]:
                        root, lo, hi = self.bounds(p)
                        if (root, hi) == x[2]:
                            if decide_known(j, t) is True:
                                return False
            # remembered: equality with that end is impossible
        return True

    def binop(self, j, op, a, b):
        if op in ('Add', 'Sub', 'AddWithOverflow', 'SubWithOverflow', 'AddUnchecked', 'SubUnchecked'):
            out = {}
            k = engine.lincomb(j.pin(a), 1, out) + engine.lincomb(j.pin(b), 1 if op.startswith('Add') else -1, out)
            v = canon_lin(out, k)
            if op == 'AddWithOverflow':
                return ('tup', (v, ('int', 0)))
            if op == 'SubWithOverflow':
                return ('tup', (v, mkcmp('lt', a, b)))
            return v
        return Product.binop(self, j, op, a, b)

    def fork(self, j, si, t, cond, yes, no):
        """continue with yes(j) where cond holds and no(j) where not; each returns a value, None for a panic"""
        d = decide(j, cond)
        if d is None and cond[0] in ('app',) and cond[1] == 'eqbytes':
            for p in cond[2]:
                root, lo, hi = self.bounds(p)
                if decide_known(j, ('app', 'bnd', (root, hi))) is False:
                    d = False
        res = []
        for val, f in ((True, yes), (False, no)):
            if d is not None and d != val:
                continue
            j2 = j if d is not None else j.copy()
            if d is None and not self.assume(j2, cond, val):
                continue
            fr = j2.sides[si].frames[-1]
            self.cur = j2
            v = f(j2)
            if v is None:
                res.append((j2, Event('panic', 'library call', span=t[7], raw=t[8])))
            elif isinstance(v, list):
                res += v
            else:
                r = self.ret_to(j2, si, fr, t, v)
                if r is None:
                    res.append(j2)
        return res

    def call_const(self, j, si, fr, t, k, args):
        prog = self.cfg.progs[si]
        canon = prog.callee(k)
        self.cur = j
        m = RT.get(re.sub(r'::<impl [^>]*>', '', canon))
        if m is not None:
            r = m(self, j, si, fr, t, k, args)
            if r is not NotImplemented:
                return r
        return Product.call_const(self, j, si, fr, t, k, args)

    def no_model(self, si, canon, args):
        # a view of the input (an iterator, a closure to be applied to its elements) given to a function
        # this analysis has no model for: what comes out is not decided, neither held nor violated
        sd = self.cur.sides[si]
        for a in args:
            if it_value(self, sd, a)[0] in ('it', 'clo'):
                raise Inconclusive('no model for %s on an iterator' % canon)

    # ---- element predicates --------------------------------------------
    def classify_paths(self, j, si, clo, kind, wrap):
        """runs a closure on a symbolic element: [(set of element values, result value)]"""
        hi = FULL.get(kind)
        j2 = j.copy()
        e = j2.fresh('u')
        j2.facts[e] = (0, hi, frozenset())
        sd = j2.sides[si]
        v = self.strip_refs(sd, clo)
        arg = e
        for _ in range(wrap):
            arg = ('&', arg)
        if v[0] == 'fn':
            raise Inconclusive('function used as predicate')
        if v[0] != 'clo':
            if v[0] in ('int', 'app', 'id'):
                return e, [(of_facts((v[1], v[1], frozenset()), hi), ('int', 1)), (rcompl(((v[1], v[1]),), hi), ('int', 0))] if v[0] == 'int' else []
            raise Inconclusive('predicate %s' % show(v))
        bid = self.cfg.clo_body[si][v[1]]
        b = self.cfg.progs[si].bodies[bid]
        j2.uid += 1
        f = Frame(bid, j2.uid)
        a0 = clo if b['locals'][1].startswith('&') else v
        if b['locals'][1].startswith('&') and a0[0] not in ('ref', '&'):
            a0 = ('&', v)
        sd.store[('L', f.uid, 1)] = a0
        sd.store[('L', f.uid, 2)] = arg
        sd.frames = [f]
        out = []
        for j3, ev in self.advance(j2, si):
            if ev.kind == 'panic':
                continue
            if ev.kind != 'ret':
                raise Inconclusive('predicate with effects')
            out.append((j3, ev.args[0]))
        return e, out

    def predicate(self, j, si, clo, kind, wrap):
        """set of element values for which a bool closure holds"""
        hi = FULL[kind]
        v = self.strip_refs(j.sides[si], clo)
        if v[0] == 'int':
            return ((v[1], v[1]),)
        if v[0] == 'arr' and all(x[0] == 'int' for x in v[1]):
            return rset([(x[1], x[1]) for x in v[1]])
        if kind == 'bytes':
            good = []
            for n in range(256):
                r = self.eval_const(j, si, v, clo, n, wrap)
                if r:
                    good.append((n, n))
            return rset(good)
        e, ps = self.classify_paths(j, si, clo, kind, wrap)
        good = []
        for j3, r in ps:
            for val in (True, False):
                j4 = j3.copy()
                if decide(j4, r) is None:
                    if not assume(j4, r, val):
                        continue
                elif decide(j4, r) != val:
                    continue
                if any(e in ids(x) for x in j4.facts if x != e):
                    raise Inconclusive('predicate on elements is not a set of ranges')
                if val:
                    good += list(of_facts(j4.rng(e), hi))
        return rset(good)

    def eval_const(self, j, si, v, clo, n, wrap):
        j2 = j.copy()
        sd = j2.sides[si]
        arg = ('int', n)
        for _ in range(wrap):
            arg = ('&', arg)
        if v[0] != 'clo':
            raise Inconclusive('predicate %s' % show(v))
        bid = self.cfg.clo_body[si][v[1]]
        b = self.cfg.progs[si].bodies[bid]
        j2.uid += 1
        f = Frame(bid, j2.uid)
        a0 = clo if b['locals'][1].startswith('&') else v
        if b['locals'][1].startswith('&') and a0[0] not in ('ref', '&'):
            a0 = ('&', v)
        sd.store[('L', f.uid, 1)] = a0
        sd.store[('L', f.uid, 2)] = arg
        sd.frames = [f]
        rs = set()
        for j3, ev in self.advance(j2, si):
            if ev.kind == 'ret':
                r = ev.args[0]
                if r[0] == 'int' and r[1] not in (0, 1):
                    raise Inconclusive('a count of more than one per element')
                rs.add(decide(j3, r))
        if len(rs) != 1 or None in rs:
            raise Inconclusive('predicate on elements is not decided by the element')
        return rs.pop()

    # ---- counting terms --------------------------------------------------
    def count(self, j, kind, v, stop, cnt):
        """number of elements in cnt after the last element in stop"""
        root, lo, hi = self.bounds(v)
        if kind == 'bytes':
            s, c = to_chars(stop), to_chars(cnt)
            if s is not None and c is not None and (not stop or all(b <= 127 for a, b in stop)):
                kind, stop, cnt = 'chars', s, c
            elif not stop and cnt == ((0, 255),):
                return self.minus(j, hi, lo)
        if not cnt:
            return ('int', 0)
        cnt = rinter(cnt, rcompl(stop, FULL[kind]))
        # a slice that starts right after the last element of a set
        for _ in range(2):
            if lo[0] == 'app' and lo[1] == 'after' and lo[2][0] == root and lo[2][2] == hi and not stop:
                stop, lo = lo[2][3], lo[2][1]
                cnt = rinter(cnt, rcompl(stop, FULL[kind])) if kind == 'chars' else cnt
        if decide_known(j, ('app', 'none', (root, lo, hi, NL))):
            # no newline at all: it can be neither counted nor stopped at
            stop, cnt = rinter(stop, rcompl(NL, FULL[kind])), rinter(cnt, rcompl(NL, FULL[kind]))
            if not cnt:
                return ('int', 0)
        return ('app', 'count', (kind, root, lo, hi, stop, cnt))

    def last_of(self, j, si, t, v, s, fin):
        """fork: no element of s in the slice, or its last one at some offset (relative to v)"""
        root, lo, hi = self.bounds(v)
        cond = ('app', 'none', (root, lo, hi, s))

        def yes(j2):
            return fin(j2, None)

        def no(j2):
            # offset of the last element of s: after(...) - 1
            aft = ('app', 'after', (root, lo, hi, s))
            assume(j2, mkcmp('le', aft, hi), True)
            assume(j2, mkcmp('lt', lo, aft), True)
            if lo == ('int', 0):
                r = j2.rng(aft)
                j2.facts[aft] = (max(1, r[0] or 0), r[1], r[2])
            for q in self.known_bounds | {self.total(root)}:
                if decide(j2, mkcmp('le', hi, q)):
                    assume(j2, mkcmp('le', aft, q), True)
            p = add(aft, -1)
            return fin(j2, self.minus(j2, p, lo))
        return self.fork(j, si, t, cond, yes, no)


def canon_lin(out, k):
    pos = sorted((t for t, c in out.items() for _ in range(max(c, 0))), key=repr)
    neg = sorted((t for t, c in out.items() for _ in range(max(-c, 0))), key=repr)

    def total(xs):
        v = xs[0]
        for x in xs[1:]:
            v = ('app', 'Add', (v, x))
        return v
    if not neg:
        return add(total(pos), k) if pos else ('int', k)
    if not pos:
        return ('app', 'Sub', (('int', k), total(neg)))
    return add(('app', 'Sub', (total(pos), total(neg))), k)


def ids(t):
    s = set()
    engine.ids_in(t, s)
    return s


def decide_known(j, t):
    r = j.facts.get(t)
    if r is None:
        return None
    return engine.decide_rng(r, 'eq', 1) if engine.decide_rng(r, 'eq', 0) is None else not engine.decide_rng(r, 'eq', 0)


RT = {}


def joined(e, j, v):
    """a joined set with one element is that element"""
    if v[0] == 'app' and v[1] == 'joined':
        n = j.pin(('app', 'len', (v[2][0],)))
        if v[2][1][0] == 'int' and n == ('int', v[2][1][1] + 1):
            return nth(v[2][0], v[2][1])
    return v


def rt(*names):
    def d(f):
        for n in names:
            RT[re.sub(r'::<impl [^>]*>', '', n)] = f
        return f
    return d


@rt('str::as_bytes', 'str::<impl str>::as_bytes', 'AsRef::as_ref', 'str::<impl str>::as_str', 'Borrow::borrow', 'str::from_utf8_unchecked', 'slice::<impl [T]>::as_ref')
def as_bytes(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    return e.ret_to(j, si, fr, t, r)


@rt('str::<impl str>::is_char_boundary')
def is_bnd(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    root, lo, hi = e.bounds(r)
    p = e.plus(j, lo, a[1])
    return e.fork(j, si, t, mkcmp('le', p, hi), lambda j2: e.boundary(j2, root, p), lambda j2: ('int', 0))


def range_of(e, j, si, v, r):
    """lo, hi (None: to the end) of a range value, or None"""
    if v[0] == '&':
        v = v[1]
    if v[0] != 'adt':
        return None
    n = v[1].split('::')[-1]
    f = dict(v[3])
    if n == 'RangeFrom':
        return f['start'], None
    if n == 'RangeTo':
        return ('int', 0), f['end']
    if n == 'Range':
        return f['start'], f['end']
    if n == 'RangeFull':
        return ('int', 0), None
    if n == 'RangeToInclusive':
        return ('int', 0), add(f['end'], 1)
    return None


def slicing(e, j, si, t, r, rg, is_str, ok, bad):
    """fork over whether r[rg] is in bounds and on character boundaries"""
    root, a, b = e.bounds(r)
    lo = e.plus(j, a, rg[0])
    hi = b if rg[1] is None else e.plus(j, a, rg[1])
    conds = [mkcmp('le', lo, hi), mkcmp('le', hi, b)]
    if is_str:
        conds += [lambda j2: e.boundary(j2, root, lo), lambda j2: e.boundary(j2, root, hi)]

    def go(j2, i):
        if i == len(conds):
            return ok(j2, e.sub(j2, r, rg[0], rg[1]))
        c = conds[i]
        if callable(c):
            c = c(j2)
        return e.fork(j2, si, t, c, lambda j3: go(j3, i + 1), bad)
    return go(j, 0)


def is_str_ty(t, i=0):
    return 'str' in t[5][i] and '[' not in t[5][i]


@rt('Index::index')
def index(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        if a[0][0] in ('ref', '&') and a[1][0] in ('int', 'id', 'lin', 'app'):
            v = e.strip_refs(j.sides[si], a[0])
            if v[0] == 'setvec':
                return nth_of(e, j, si, t, v[1], e.plus(j, v[2], a[1]), lambda j2, x: x, lambda j2: None)
        return NotImplemented
    rg = range_of(e, j, si, a[1], r)
    if rg is None:
        if a[1][0] in ('int', 'id', 'lin', 'app'):
            return e.fork(j, si, t, mkcmp('lt', a[1], e.rt_length(j, j.sides[si], r)),
                          lambda j2: ('&', e.project(('app', 'deref', (r,)), ('i', a[1]))), lambda j2: None)
        return NotImplemented
    return slicing(e, j, si, t, r, rg, is_str_ty(t), lambda j2, v: v, lambda j2: None)


@rt('str::<impl str>::get', 'slice::<impl [T]>::get')
def get(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    rg = range_of(e, j, si, a[1], r)
    if rg is None:
        if a[1][0] not in ('int', 'id', 'lin', 'app'):
            return NotImplemented
        return e.fork(j, si, t, mkcmp('lt', a[1], e.rt_length(j, j.sides[si], r)),
                      lambda j2: some(('&', e.project(('app', 'deref', (r,)), ('i', a[1])))), lambda j2: NONE)
    return slicing(e, j, si, t, r, rg, is_str_ty(t), lambda j2, v: some(v), lambda j2: NONE)


@rt('str::<impl str>::get_unchecked', 'slice::<impl [T]>::get_unchecked')
def get_unchecked(e, j, si, fr, t, k, a):
    return index(e, j, si, fr, t, k, a)


@rt('str::<impl str>::split_at', 'slice::<impl [T]>::split_at')
def split_at(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    return slicing(e, j, si, t, r, (('int', 0), a[1]), is_str_ty(t), lambda j2, v: ('tup', (v, e.sub(j2, r, a[1], None))), lambda j2: None)


@rt('slice::<impl [T]>::first', 'slice::<impl [T]>::last')
def first(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    n = e.rt_length(j, j.sides[si], r)
    i = ('int', 0) if canon_last(k) == 'first' else add(n, -1)
    return e.fork(j, si, t, mkcmp('lt', ('int', 0), n), lambda j2: some(('&', e.project(('app', 'deref', (r,)), ('i', i)))), lambda j2: NONE)


def canon_last(k):
    return k['name'].split('::')[-1]


@rt('slice::<impl [T]>::split_first')
def split_first(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    n = e.rt_length(j, j.sides[si], r)
    return e.fork(j, si, t, mkcmp('lt', ('int', 0), n),
                  lambda j2: some(('tup', (('&', e.project(('app', 'deref', (r,)), ('i', ('int', 0)))), e.sub(j2, r, ('int', 1), None)))), lambda j2: NONE)


@rt('str::<impl str>::starts_with', 'slice::<impl [T]>::starts_with', 'str::<impl str>::strip_prefix', 'slice::<impl [T]>::strip_prefix')
def starts_with(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    r, p = e.root_of(sd, a[0]), e.root_of(sd, a[1])
    if r is None or p is None:
        return NotImplemented
    n = e.rt_length(j, sd, p)
    strip = canon_last(k) == 'strip_prefix'
    root, lo, hi = e.bounds(r)
    end = e.plus(j, lo, n)

    def yes(j2):
        return some(e.sub(j2, r, n, None)) if strip else ('int', 1)

    def no(j2):
        return NONE if strip else ('int', 0)

    def inb(j2):
        x, y = sorted((e.sub(j2, r, ('int', 0), n), p), key=repr)
        return e.fork(j2, si, t, ('app', 'eqbytes', (x, y)), yes, no)
    return e.fork(j, si, t, mkcmp('le', end, hi), inb, no)


@rt('PartialEq::eq', 'PartialEq::ne')
def eq(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    r, p = e.root_of(sd, a[0]), e.root_of(sd, a[1])
    if r is None or p is None:
        # Option<&str> and the like
        x, y = models.deref_term(e, sd, a[0]), models.deref_term(e, sd, a[1])
        if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1] == OPT:
            neg = k['method'] == 'ne'
            if x[2] != y[2]:
                return e.ret_to(j, si, fr, t, ('int', 1 if neg else 0))
            if x[2] == 'None':
                return e.ret_to(j, si, fr, t, ('int', 0 if neg else 1))
            r, p = e.root_of(sd, x[3][0][1]), e.root_of(sd, y[3][0][1])
            if r is None or p is None:
                return NotImplemented
        else:
            return NotImplemented
    return compare(e, j, si, fr, t, r, p, k['method'] == 'ne')


def compare(e, j, si, fr, t, r, p, neg):
    sd = j.sides[si]
    tv, fv = (('int', 0), ('int', 1)) if neg else (('int', 1), ('int', 0))
    if r == p:
        return e.ret_to(j, si, fr, t, tv)
    lr, lp = e.rt_length(j, sd, r), e.rt_length(j, sd, p)

    def same(j2):
        # both offsets are fixed once the lengths are known to agree
        x, y = r, p
        if x[0] == 'app' and x[1] == 'sub' or x == ROOT:
            root, lo, hi = e.bounds(x)
            x = ('app', 'sub', (root, lo, e.plus(j2, lo, e.rt_length(j2, j2.sides[si], y))))
            if (x[2][1], x[2][2]) == (('int', 0), e.total(root)):
                x = root
        x, y = sorted((x, y), key=repr)
        return e.fork(j2, si, t, ('app', 'eqbytes', (x, y)), lambda j3: tv, lambda j3: fv)
    return e.fork(j, si, t, mkcmp('eq', lr, lp), same, lambda j2: fv)


@rt('char::methods::<impl char>::len_utf8', 'char::len_utf8')
def len_utf8(e, j, si, fr, t, k, a):
    return e.ret_to(j, si, fr, t, ('app', 'len_utf8', (a[0],)))


@rt('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def omax(e, j, si, fr, t, k, a):
    mx = 'max' in canon_last(k)
    return e.fork(j, si, t, mkcmp('lt', a[0], a[1]), lambda j2: a[1] if mx else a[0], lambda j2: a[0] if mx else a[1])


@rt('Ord::cmp', 'PartialOrd::partial_cmp')
def ocmp(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    x, y = models.deref_term(e, sd, a[0]), models.deref_term(e, sd, a[1])
    w = some if canon_last(k) == 'partial_cmp' else (lambda v: v)
    o = lambda n: w(('adt', 'cmp::Ordering', n, ()))
    return e.fork(j, si, t, mkcmp('lt', x, y), lambda j2: o('Less'),
                  lambda j2: e.fork(j2, si, t, mkcmp('eq', x, y), lambda j3: o('Equal'), lambda j3: o('Greater')))


@rt('num::<impl usize>::saturating_sub', 'num::<impl usize>::checked_sub', 'num::<impl usize>::wrapping_sub')
def satsub(e, j, si, fr, t, k, a):
    n = canon_last(k)
    if n == 'wrapping_sub':
        return NotImplemented
    w = some if n == 'checked_sub' else (lambda v: v)
    z = NONE if n == 'checked_sub' else ('int', 0)
    return e.fork(j, si, t, mkcmp('le', a[1], a[0]), lambda j2: w(e.minus(j2, a[0], a[1])), lambda j2: z)


@rt('num::<impl usize>::saturating_add', 'num::<impl usize>::wrapping_add', 'num::<impl usize>::checked_add')
def satadd(e, j, si, fr, t, k, a):
    v = e.plus(j, a[0], a[1])
    return e.ret_to(j, si, fr, t, some(v) if canon_last(k) == 'checked_add' else v)


@rt('str::len', 'slice::len', 'str::is_empty', 'slice::is_empty', 'vec::Vec::len', 'vec::Vec::is_empty')
def seq_len(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    x = it_value(e, sd, a[0])
    if x[0] == 'setvec':
        n = e.minus(j, ('app', 'len', (x[1],)), x[2])
    else:
        n = e.rt_length(j, sd, a[0])
        if n is None:
            return NotImplemented
    return e.ret_to(j, si, fr, t, n if canon_last(k) == 'len' else mkcmp('eq', n, ('int', 0)))


@rt('BitAnd::bitand', 'BitOr::bitor', 'Add::add', 'Sub::sub', 'BitXor::bitxor')
def arith(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    if not all(re.sub(r"&('\w+ )?", '', ty) in ('u8', 'usize', 'u32', 'char', 'bool') for ty in t[5]):
        return NotImplemented
    x, y = (models.deref_term(e, sd, v) for v in a)
    op = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'add': 'Add', 'sub': 'Sub', 'bitxor': 'BitXor'}[canon_last(k)]
    return e.ret_to(j, si, fr, t, e.binop(j, op, x, y))


# ---- expected set -------------------------------------------------------------
def is_set_ty(t, i=0):
    return 'BTreeSet' in t[5][i]


def set_at(e, sd, v):
    addr, p = e.target(v)
    x = e.load(sd, addr, p)
    for _ in range(4):
        if x[0] == 'ref':
            addr, p = x[1], x[2]
            x = e.load(sd, addr, p)
        elif x[0] == '&':
            addr, p = ('O', x), ()
            x = x[1]
        else:
            break
    return addr, p, x


@rt('collections::BTreeSet::new', 'collections::btree_set::BTreeSet::new')
def set_new(e, j, si, fr, t, k, a):
    return e.ret_to(j, si, fr, t, ('app', 'setnew', ()))


@rt('collections::BTreeSet::insert')
def set_insert(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p, s = set_at(e, sd, a[0])
    x = e.snap(sd, a[1])
    c = ('app', 'contains', (s, x))
    if decide_known(j, c) is not True:
        e.put(sd, addr, p, ('app', 'setadd', (s, x)))
    return e.ret_to(j, si, fr, t, bneg(mkcmp('eq', c, ('int', 1))))


@rt('collections::BTreeSet::contains')
def set_contains(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p, s = set_at(e, sd, a[0])
    x = e.snap(sd, a[1])
    x = x[1] if x[0] == '&' else x
    return e.fork(j, si, t, ('app', 'contains', (s, x)), lambda j2: ('int', 1), lambda j2: ('int', 0))


@rt('collections::BTreeSet::clear')
def set_clear(e, j, si, fr, t, k, a):
    addr, p, s = set_at(e, j.sides[si], a[0])
    e.put(j.sides[si], addr, p, ('app', 'setnew', ()))
    return e.ret_to(j, si, fr, t, UNIT)


@rt('collections::BTreeSet::len')
def set_len(e, j, si, fr, t, k, a):
    addr, p, s = set_at(e, j.sides[si], a[0])
    return e.ret_to(j, si, fr, t, j.pin(('app', 'len', (s,))))


@rt('collections::BTreeSet::is_empty')
def set_is_empty(e, j, si, fr, t, k, a):
    addr, p, s = set_at(e, j.sides[si], a[0])
    return e.ret_to(j, si, fr, t, mkcmp('eq', ('app', 'len', (s,)), ('int', 0)))


@rt('collections::BTreeSet::iter')
def set_iter(e, j, si, fr, t, k, a):
    addr, p, s = set_at(e, j.sides[si], a[0])
    return e.ret_to(j, si, fr, t, ('it', 'set', s, ('int', 0), (), ()))


@rt('collections::BTreeSet::first')
def set_first(e, j, si, fr, t, k, a):
    addr, p, s = set_at(e, j.sides[si], a[0])
    return nth_of(e, j, si, t, s, ('int', 0), lambda j2, x: some(x), lambda j2: NONE)


def nth(s, i):
    """reference to the i-th element in ascending order"""
    return ('app', 'nth', (s, i))


def nth_of(e, j, si, t, s, i, yes, no):
    return e.fork(j, si, t, mkcmp('lt', i, ('app', 'len', (s,))), lambda j2: yes(j2, nth(s, i)), no)


# ---- iterators: ('it', kind, source, index, adapters, dir) ---------------------
# kind: chars | bytes (references or values to be peeled by adapters) | set
def it_value(e, sd, v):
    for _ in range(4):
        if v[0] == 'ref':
            v = e.load(sd, v[1], v[2])
        elif v[0] == '&':
            v = v[1]
        else:
            break
    return v


def src_iter(kind, r):
    return ('it', kind, r, ('int', 0), (), ())


@rt('str::<impl str>::chars', 'str::<impl str>::bytes', 'slice::<impl [T]>::iter', 'str::<impl str>::char_indices')
def seq_iter(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    n = canon_last(k)
    x = it_value(e, sd, a[0])
    if x[0] == 'setvec':
        return e.ret_to(j, si, fr, t, ('it', 'set', x[1], x[2], (), ()))
    r = e.root_of(sd, a[0])
    if r is None:
        return NotImplemented
    kind = 'chars' if n in ('chars', 'char_indices') else 'bytes'
    # element of a slice iterator is a reference
    ad = (('ref',),) if n == 'iter' else (('idx', e.bounds(r)[1]),) if n == 'char_indices' else ()
    return e.ret_to(j, si, fr, t, ('it', kind, r, ('int', 0), ad, ()))


@rt('IntoIterator::into_iter')
def into_iter(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    v = a[0]
    if v[0] == 'it':
        return e.ret_to(j, si, fr, t, v)
    x = it_value(e, sd, v)
    if x[0] == 'it':
        return e.ret_to(j, si, fr, t, v)
    if x[0] == 'setvec':
        return e.ret_to(j, si, fr, t, ('it', 'set', x[1], x[2], (), ()))
    if is_set_ty(t):
        return e.ret_to(j, si, fr, t, ('it', 'set', x, ('int', 0), (), ()))
    r = e.root_of(sd, a[0])
    if r is not None and '[' in t[5][0]:
        return e.ret_to(j, si, fr, t, ('it', 'bytes', r, ('int', 0), (('ref',),), ()))
    return NotImplemented


@rt('Iterator::rev', 'Iterator::copied', 'Iterator::cloned', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse')
def it_simple(e, j, si, fr, t, k, a):
    v = a[0]
    n = canon_last(k)
    if n == 'by_ref':
        return e.ret_to(j, si, fr, t, v)
    if v[0] != 'it':
        return NotImplemented
    if n == 'rev':
        if v[1] == 'set' or any(x[0] not in ('ref', 'deref', 'idx') for x in v[4]):
            return NotImplemented
        v = v[:5] + (('rev',) if v[5] == () else (),)
    elif n in ('copied', 'cloned'):
        v = v[:4] + (v[4] + (('deref',),), v[5])
    return e.ret_to(j, si, fr, t, v)


@rt('Iterator::filter', 'Iterator::take_while', 'Iterator::map', 'Iterator::skip', 'Iterator::enumerate', 'Iterator::take', 'Iterator::skip_while')
def it_adapt(e, j, si, fr, t, k, a):
    v = a[0]
    if v[0] != 'it':
        return NotImplemented
    n = canon_last(k)
    return e.ret_to(j, si, fr, t, v[:4] + (v[4] + ((n,) + tuple(a[1:]),), v[5]))


def wraps(ads):
    """how many references the element carries after plain adapters"""
    n = 0
    for x in ads:
        if x[0] == 'ref':
            n += 1
        elif x[0] == 'deref':
            n -= 1
    return n


def chain(e, j, si, v):
    """(kind, source, stop set, counted set) of a filtered chain; only rev().take_while(p) gives a stop set"""
    kind, src, at, ads, d = v[1], v[2], v[3], v[4], v[5]
    full = ((0, FULL[kind]),)
    stop, cnt = (), full
    w = 0
    for x in ads:
        if x[0] == 'ref':
            w += 1
        elif x[0] == 'deref':
            w -= 1
        elif x[0] == 'filter':
            cnt = rinter(cnt, e.predicate(j, si, x[1], kind, w + 1))
        elif x[0] == 'take_while':
            p = e.predicate(j, si, x[1], kind, w + 1)
            if d == ('rev',) and cnt == full and not stop:
                stop = rcompl(p, FULL[kind])
                cnt = p
            else:
                raise Inconclusive('take_while in this chain')
        elif x[0] == 'map':
            pass
        else:
            raise Inconclusive('iterator adapter ' + x[0])
    return kind, src, stop, cnt


@rt('Iterator::count')
def it_count(e, j, si, fr, t, k, a):
    v = a[0]
    if v[0] != 'it':
        return NotImplemented
    if v[1] == 'lines':
        return NotImplemented
    if v[1] == 'split':
        return e.ret_to(j, si, fr, t, add(e.count(j, 'chars', v[2], (), v[3]), 1))
    if v[1] == 'matches':
        return e.ret_to(j, si, fr, t, e.count(j, 'chars', v[2], (), v[3]))
    if v[1] == 'set':
        if v[4] and any(x[0] not in ('deref', 'ref', 'map') for x in v[4]):
            return NotImplemented
        return e.ret_to(j, si, fr, t, e.minus(j, ('app', 'len', (v[2],)), v[3]))
    kind, src, stop, cnt = chain(e, j, si, v)
    return e.ret_to(j, si, fr, t, e.count(j, kind, src, stop, cnt))


@rt('Iterator::sum')
def it_sum(e, j, si, fr, t, k, a):
    v = a[0]
    # a sum of 0/1 per element counts the elements with 1
    if v[0] != 'it' or v[1] != 'bytes' or not v[4] or v[4][-1][0] != 'map':
        return NotImplemented
    one = e.predicate(j, si, v[4][-1][1], 'bytes', wraps(v[4][:-1]))
    kind, src, stop, cnt = chain(e, j, si, v[:4] + (v[4][:-1],) + v[5:])
    return e.ret_to(j, si, fr, t, e.count(j, kind, src, stop, rinter(cnt, one)))


@rt('str::Chars::as_str', 'str::Bytes::as_str', 'slice::Iter::as_slice')
def it_rest(e, j, si, fr, t, k, a):
    v = it_value(e, j.sides[si], a[0])
    if v[0] != 'it' or v[1] not in FULL or v[5]:
        return NotImplemented
    return e.ret_to(j, si, fr, t, v[2])


@rt('Iterator::eq', 'Iterator::ne')
def it_eq(e, j, si, fr, t, k, a):
    x, y = a[0], a[1]
    if any(v[0] != 'it' or v[1] not in FULL or v[5] or any(q[0] not in ('ref', 'deref') for q in v[4]) for v in (x, y)) or x[1] != y[1]:
        return NotImplemented
    return compare(e, j, si, fr, t, x[2], y[2], canon_last(k) == 'ne')


@rt('str::<impl str>::matches', 'str::<impl str>::split', 'str::<impl str>::rsplit', 'slice::<impl [T]>::split', 'slice::<impl [T]>::rsplit')
def str_matches(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None:
        return NotImplemented
    n = canon_last(k)
    s = needle(e, j, si, a[1], t)
    if s is None:
        return NotImplemented
    return e.ret_to(j, si, fr, t, ('it', n, r, s, (), ()))


def needle(e, j, si, v, t):
    v = e.strip_refs(j.sides[si], v)
    if v[0] == 'app' and v[1] == 'deref':
        v = v[2][0]
    if v[0] == 'str' and len(v[1]) == 1:
        return ((ord(v[1]), ord(v[1])),)
    if v[0] == 'int':
        return ((v[1], v[1]),)
    if v[0] == 'clo':
        return e.predicate(j, si, v, 'bytes' if '[' in t[5][0] else 'chars', 1 if '[' in t[5][0] else 0)
    return None


@rt('str::<impl str>::rfind')
def rfind(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    s = needle(e, j, si, a[1], t) if r is not None else None
    if s is None:
        return NotImplemented
    return e.last_of(j, si, t, r, s, lambda j2, p: NONE if p is None else some(p))


@rt('Iterator::rposition')
def rposition(e, j, si, fr, t, k, a):
    v = it_value(e, j.sides[si], a[0])
    if v[0] != 'it' or v[1] != 'bytes':
        return NotImplemented
    s = e.predicate(j, si, a[1], 'bytes', wraps(v[4]))
    if not all(b < 128 for _, b in s):
        return NotImplemented
    return e.last_of(j, si, t, v[2], s, lambda j2, p: NONE if p is None else some(p))


@rt('Iterator::position')
def position(e, j, si, fr, t, k, a):
    v = it_value(e, j.sides[si], a[0])
    if v[0] != 'it' or v[5] != ('rev',) or v[1] not in FULL:
        return NotImplemented
    s = e.predicate(j, si, a[1], v[1], wraps(v[4]))
    full = ((0, FULL[v[1]]),)

    def fin(j2, p):
        if p is None:
            return NONE
        return some(e.count(j2, v[1], v[2], s, rcompl(s, FULL[v[1]])))
    return e.last_of(j, si, t, v[2], s, fin)


@rt('str::<impl str>::rsplit_once')
def rsplit_once(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    s = needle(e, j, si, a[1], t) if r is not None else None
    if s is None:
        return NotImplemented
    return e.last_of(j, si, t, r, s, lambda j2, p: NONE if p is None else
                     some(('tup', (e.sub(j2, r, ('int', 0), p), e.sub(j2, r, add(p, 1), None)))))


def loop_of(e, si, fr):
    """blocks of the innermost cycle through the current block, or None"""
    an = e.cfg.progs[si].analysis(fr.body)
    start = fr.bb
    reach = set()
    work = list(an.succ[start])
    while work:
        x = work.pop()
        if x in reach:
            continue
        reach.add(x)
        work += an.succ[x]
    if start not in reach:
        return None
    pred = {}
    for x in reach:
        for s in an.succ[x]:
            pred.setdefault(s, []).append(x)
    back = set()
    work = [start]
    while work:
        x = work.pop()
        if x in back:
            continue
        back.add(x)
        work += [p for p in pred.get(x, []) if p in reach]
    return back & (reach | {start})


@rt('Iterator::next', 'Iterator::last', 'DoubleEndedIterator::next_back')
def it_next(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    n = canon_last(k)
    if n == 'last':
        v = a[0]
        if v[0] == 'it' and v[1] == 'split':
            return e.last_of(j, si, t, v[2], v[3], lambda j2, p: some(v[2]) if p is None else some(e.sub(j2, v[2], add(p, 1), None)))
        return NotImplemented
    addr, p = e.target(a[0])
    v = e.load(sd, addr, p)
    for _ in range(3):
        if v[0] == 'ref':
            addr, p = v[1], v[2]
            v = e.load(sd, addr, p)
    if v[0] != 'it':
        return NotImplemented
    if v[1] == 'rsplit':
        return e.last_of(j, si, t, v[2], v[3], lambda j2, q: some(v[2]) if q is None else some(e.sub(j2, v[2], add(q, 1), None)))
    if v[1] == 'split':
        return NotImplemented
    if v[1] == 'set':
        if any(x[0] not in ('deref', 'ref', 'map', 'enumerate') for x in v[4]):
            return NotImplemented
        if n == 'next_back':
            return NotImplemented
        i = v[3]
        if (i[0] != 'int' or i[1] > e.cfg.threshold) and not getattr(e, 'in_event', False):
            return Event('query', 'next', (v[2], i), e.place(j, si, fr, t[3]), t[4], 'next', t[7], t[8], [(addr, p, v)], None, None)

        def yes(j2, x):
            e.put(j2.sides[si], addr, p, v[:3] + (add(i, 1),) + v[4:])
            return some(e.elem(j2, si, v, x))
        return nth_of(e, j, si, t, v[2], i, yes, lambda j2: NONE)
    if v[1] not in FULL:
        return NotImplemented
    loop = loop_of(e, si, fr)
    if loop is not None:
        return fold_loop(e, j, si, fr, t, v, addr, p, loop)
    if any(x[0] not in ('ref', 'deref', 'idx') for x in v[4]) or v[5] or n == 'next_back':
        return NotImplemented
    root, lo, hi = e.bounds(v[2])

    def yes(j2):
        if v[1] == 'chars':
            c = ('app', 'charat', (root, lo))
            step = ('app', 'len_utf8', (c,))
        else:
            c = ('app', 'index', (('app', 'deref', (root,)), lo))
            step = ('int', 1)
        # what is read ends within the slice
        assume(j2, mkcmp('le', e.plus(j2, lo, step), hi), True)
        e.put(j2.sides[si], addr, p, v[:2] + (e.sub(j2, v[2], step, None),) + v[3:])
        for x in v[4]:
            if x[0] == 'ref':
                c = ('&', c)
            elif x[0] == 'deref':
                c = c[1]
            elif x[0] == 'idx':
                c = ('tup', (e.minus(j2, lo, x[1]), c))
        return some(c)
    return e.fork(j, si, t, mkcmp('lt', lo, hi), yes, lambda j2: NONE)


def set_elem(e, j, si, v, x):
    """what an iterator over the set yields for element reference x"""
    for ad in v[4]:
        if ad[0] == 'deref':
            x = e.load(j.sides[si], *e.target(x))
        elif ad[0] == 'ref':
            x = ('&', x)
        elif ad[0] == 'enumerate':
            x = ('tup', (v[3], x))
        elif ad[0] == 'map':
            x = call_pure(e, j, si, ad[1], x)
    return x


RtProduct.elem = lambda self, j, si, v, x: set_elem(self, j, si, v, x)


def call_pure(e, j, si, clo, x):
    j2 = j.copy()
    sd = j2.sides[si]
    v = e.strip_refs(sd, clo)
    if v[0] == 'fn':
        return ('app', v[1], (x,))
    if v[0] != 'clo':
        raise Inconclusive('mapped by %s' % show(v))
    bid = e.cfg.clo_body[si][v[1]]
    b = e.cfg.progs[si].bodies[bid]
    j2.uid += 1
    f = Frame(bid, j2.uid)
    a0 = clo if clo[0] in ('ref', '&') else (('&', v) if b['locals'][1].startswith('&') else v)
    sd.store[('L', f.uid, 1)] = a0
    sd.store[('L', f.uid, 2)] = x
    sd.frames = [f]
    rs = [ev for j3, ev in e.advance(j2, si)]
    if len(rs) != 1 or rs[0].kind != 'ret':
        raise Inconclusive('mapping closure with several outcomes')
    return rs[0].args[0]


@rt('Iterator::collect')
def collect(e, j, si, fr, t, k, a):
    v = a[0]
    if v[0] == 'it' and v[1] == 'set' and 'Vec' in t[6] and not any(x[0] in ('filter', 'enumerate', 'take', 'skip') for x in v[4]):
        x = e.elem(j, si, v, nth(v[2], ('int', 0)))
        if not is_elem(e, j, si, x, v[2]):
            return NotImplemented
        return e.ret_to(j, si, fr, t, ('setvec', v[2], v[3]))
    return NotImplemented


def is_elem(e, j, si, x, s):
    """x is the element nth(s,0) or a reference to it"""
    y = peel(x)
    return y == nth(s, ('int', 0))


def peel(x):
    while x[0] == '&' or x[0] == 'app' and x[1] == 'deref':
        x = x[1] if x[0] == '&' else x[2][0]
    return x


@rt('slice::<impl [T]>::sort', 'slice::<impl [T]>::sort_unstable', 'vec::Vec::dedup', 'slice::sort')
def sort(e, j, si, fr, t, k, a):
    x = it_value(e, j.sides[si], a[0])
    if x[0] == 'setvec':
        return e.ret_to(j, si, fr, t, UNIT)
    return NotImplemented


@rt('Deref::deref', 'DerefMut::deref_mut', 'vec::Vec::as_slice')
def vderef(e, j, si, fr, t, k, a):
    x = it_value(e, j.sides[si], a[0])
    if x[0] == 'setvec' or x[0] == 'app' and x[1] == 'joined':
        return e.ret_to(j, si, fr, t, a[0])
    return NotImplemented


@rt('slice::<impl [T]>::join', 'slice::join')
def join(e, j, si, fr, t, k, a):
    x = it_value(e, j.sides[si], a[0])
    if x[0] != 'setvec':
        return NotImplemented
    s = e.root_of(j.sides[si], a[1])
    if s is None or s[0] != 'str':
        return NotImplemented
    return e.ret_to(j, si, fr, t, ('app', 'joined', (x[1], x[2], s)))


# ---- formatted output -----------------------------------------------------------
OKU = ('adt', 'result::Result', 'Ok', ((0, UNIT),))


def emit(e, j, si, pieces):
    """pieces appended to what side si has written"""
    sd = j.sides[si]
    out = list(sd.marks)
    for p in pieces:
        if p[0] == 'txt':
            if not p[1]:
                continue
            if out and out[-1][0] == 'txt':
                out[-1] = ('txt', out[-1][1] + p[1])
                continue
        out.append(p)
    sd.marks = tuple(out)


def piece(e, j, si, v):
    """what displaying the value behind v writes"""
    sd = j.sides[si]
    x = e.snap(sd, v)
    y = joined(e, j, peel(x))
    if y[0] == 'str':
        return ('txt', y[1])
    if y[0] == 'adt' or y[0] == 'app' and y[1] != 'nth' or y[0] in ('id', 'lin', 'upd'):
        return ('disp', y)
    return ('disp', y)


@rt('fmt::Arguments::from_str', 'fmt::Arguments::from_str_nonconst', 'fmt::Arguments::new_const')
def args_str(e, j, si, fr, t, k, a):
    r = e.root_of(j.sides[si], a[0])
    if r is None or r[0] != 'str':
        return NotImplemented
    return e.ret_to(j, si, fr, t, ('fmtargs', (('txt', r[1]),)))


@rt('fmt::rt::Argument::new_display', 'fmt::rt::Argument::new_debug', 'fmt::rt::Argument::new_lower_hex')
def new_display(e, j, si, fr, t, k, a):
    n = canon_last(k)
    p = piece(e, j, si, a[0])
    if n != 'new_display':
        p = (n,) + p
    return e.ret_to(j, si, fr, t, ('fmtarg', p))


@rt('fmt::Arguments::new')
def args_new(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    b = it_value(e, sd, a[0])
    if b[0] == 'app' and b[1] == 'deref':
        b = b[2][0]
    xs = it_value(e, sd, a[1])
    if b[0] != 'bytes' or xs[0] != 'arr':
        return NotImplemented
    out = []
    for p in models.template(b[1]):
        if p[0] == 'txt':
            out.append(p)
        else:
            q = it_value(e, sd, xs[1][p[1]])[1]
            out.append(q + p[2] if p[2] else q)
    return e.ret_to(j, si, fr, t, ('fmtargs', tuple(out)))


@rt('fmt::Formatter::write_fmt', 'fmt::Write::write_fmt', 'Write::write_fmt')
def write_fmt(e, j, si, fr, t, k, a):
    v = it_value(e, j.sides[si], a[1])
    if v[0] != 'fmtargs':
        return NotImplemented
    emit(e, j, si, v[1])
    return e.ret_to(j, si, fr, t, OKU)


@rt('fmt::Formatter::write_str', 'Write::write_str', 'fmt::Write::write_str', 'fmt::Formatter::pad')
def write_str(e, j, si, fr, t, k, a):
    emit(e, j, si, [piece(e, j, si, a[1])])
    return e.ret_to(j, si, fr, t, OKU)


@rt('fmt::Formatter::write_char', 'Write::write_char', 'fmt::Write::write_char')
def write_char(e, j, si, fr, t, k, a):
    if a[1][0] != 'int':
        return NotImplemented
    emit(e, j, si, [('txt', chr(a[1][1]))])
    return e.ret_to(j, si, fr, t, OKU)


@rt('Display::fmt')
def display_fmt(e, j, si, fr, t, k, a):
    emit(e, j, si, [piece(e, j, si, a[0])])
    return e.ret_to(j, si, fr, t, OKU)


# ---- loops over the input ---------------------------------------------------------
def fold_loop(e, j, si, fr, t, v, addr, p, loop):
    """replaces a loop over the elements of a slice by its effect on the loop-carried variables"""
    prog = e.cfg.progs[si]
    b = prog.bodies[fr.body]
    an = prog.analysis(fr.body)
    kind, src, ads, rev = v[1], v[2], v[4], v[5]
    if any(x[0] not in ('ref', 'deref', 'idx', 'enumerate') for x in ads):
        raise Inconclusive('loop over an adapted iterator')
    if rev and any(x[0] in ('idx', 'enumerate') for x in ads):
        raise Inconclusive('reverse loop with positions')
    if any(x[0] == 'idx' and x[1] != e.bounds(src)[1] for x in ads):
        raise Inconclusive('loop over the rest of an iterator with positions')
    e.folds += 1
    header = fr.bb
    # loop-carried locals: assigned in the loop and live at the header
    assigned = set()
    for x in loop:
        for s in b['blocks'][x]['s']:
            if s[0] == '=':
                assigned.add(s[1][0])
        tt = b['blocks'][x]['t']
        if tt[0] == 'call':
            assigned.add(tt[3][0])
            for o in tt[2]:
                pass
    live = an.live_in[header]
    itloc = addr[2] if addr[0] == 'L' and addr[1] == fr.uid else None
    vars_ = [l for l in sorted(assigned & set(live)) if l != itloc and ('L', fr.uid, l) in j.sides[si].store
             and prog.ty(b['locals'][l]) in ('usize', 'bool', 'u32', 'u64', 'Option<usize>', 'option::Option<usize>')]
    others = [l for l in sorted(assigned & set(live)) if l != itloc and l not in vars_ and ('L', fr.uid, l) in j.sides[si].store
              and j.sides[si].store[('L', fr.uid, l)][0] not in ('ref', 'undef')]
    if others:
        raise Inconclusive('loop carries %s' % ', '.join(b['locals'][l] for l in others))
    j2 = j.copy()
    sd2 = j2.sides[si]
    init = {}
    sym = {}
    for l in vars_:
        if prog.ty(b['locals'][l]) not in ('usize', 'u32', 'u64'):
            raise Inconclusive('loop carries %s' % b['locals'][l])
        init[l] = sd2.store[('L', fr.uid, l)]
        sym[l] = j2.fresh('u')
        sd2.store[('L', fr.uid, l)] = sym[l]
    el = j2.fresh('u')
    hi = FULL[kind]
    j2.facts[el] = (0, hi, frozenset())
    idx = j2.fresh('u')
    cnt = j2.fresh('u')
    x = el
    for ad in ads:
        if ad[0] == 'ref':
            x = ('&', x)
        elif ad[0] == 'deref':
            x = x[1]
        elif ad[0] == 'idx':
            x = ('tup', (idx, x))
        elif ad[0] == 'enumerate':
            x = ('tup', (idx if kind == 'bytes' else cnt, x))
    f2 = sd2.frames[-1]
    e.put(sd2, *e.place(j2, si, f2, t[3]), val=some(x))
    f2.bb = t[4]
    # one iteration
    base = sd2.frames[:-1]
    ends = []
    exits = []
    work = [j2]
    steps = 0
    depth = len(sd2.frames)
    while work:
        j3 = work.pop()
        sd3 = j3.sides[si]
        e.cur = j3
        while True:
            steps += 1
            if steps > 3000:
                raise Inconclusive('loop body too large')
            f3 = sd3.frames[-1]
            if len(sd3.frames) == depth:
                if f3.bb == header:
                    # statements before the call are part of the next iteration
                    ends.append(j3)
                    break
                if f3.bb not in loop:
                    exits.append(j3)
                    break
            r = step_one(e, j3, si, work)
            if r:
                break
    # what one iteration does to each variable, per set of element values
    def elems(j3):
        if any(el in ids(q) for q in j3.facts if q != el):
            raise Inconclusive('loop condition on elements is not a set of ranges')
        for q in j3.facts:
            if q != el and any(s in ids(q) for s in sym.values()):
                raise Inconclusive('loop condition on a carried variable')
        return of_facts(j3.rng(el), hi)
    stop = ()
    for j3 in exits:
        for l in vars_:
            if j3.sides[si].store.get(('L', fr.uid, l)) != sym[l]:
                raise Inconclusive('loop exit with an update')
        stop = runion(stop, elems(j3))
    if exits and rev != ('rev',):
        raise Inconclusive('forward loop with early exit')
    upd = {l: {} for l in vars_}
    for j3 in ends:
        s = elems(j3)
        for l in vars_:
            key = update_kind(j3.sides[si].store[('L', fr.uid, l)], sym[l], idx)
            upd[l][key] = runion(upd[l].get(key, ()), s)
    final = {}
    forkpos = None
    for l in vars_:
        final[l] = summary(e, j, kind, src, rev, stop, upd[l], init[l])
        if final[l][0] == 'lastpos':
            if forkpos not in (None, final[l][2]):
                raise Inconclusive('several remembered positions')
            forkpos = final[l][2]

    def done(j4, p_):
        sd4 = j4.sides[si]
        for l in vars_:
            x = final[l]
            if x[0] == 'lastpos':
                x = init[l] if p_ is None else add(p_, x[1])
            sd4.store[('L', fr.uid, l)] = x
        e.put(sd4, addr, p, v[:2] + (e.sub(j4, src, e.rt_length(j4, sd4, src), None),) + v[3:])
        return NONE
    if forkpos is not None:
        if kind == 'bytes' and not all(b_ < 128 for _, b_ in forkpos):
            raise Inconclusive('remembered position of a non-ASCII byte')
        return e.last_of(j, si, t, src, forkpos, done)
    if exits:
        # the loop may leave through its break; both ways lead on with the same values
        res = []
        for j3 in exits:
            pass
        bbs = {j3.sides[si].frames[-1].bb for j3 in exits}
        val = done(j, None)
        j5 = j.copy()
        r = e.ret_to(j, si, fr, t, val)
        res = [j] if r is None else []
        for bb in bbs:
            j6 = j5.copy()
            j6.sides[si].frames[-1].bb = bb
            res.append(j6)
        return res
    return e.ret_to(j, si, fr, t, done(j, None))


def update_kind(y, sym, idx):
    bb, c = split(y)
    if bb == sym:
        return ('inc', c)
    if bb is None:
        return ('set', c)
    if bb == idx:
        return ('pos', c)
    raise Inconclusive('loop update to %s' % show(y))


def summary(e, j, kind, src, rev, stop, upd, init):
    """value of a variable after the loop, from what one iteration does per set of elements"""
    root, lo, hi = e.bounds(src)
    u = dict(upd)
    u.pop(('inc', 0), ())
    if not u:
        return init
    incs = [kk for kk in u if kk[0] == 'inc']
    sets = [kk for kk in u if kk[0] == 'set']
    poss = [kk for kk in u if kk[0] == 'pos']
    if len(incs) == 1 and not sets and not poss and incs[0][1] == 1:
        return e.binop(j, 'Add', init, e.count(j, kind, src, stop, u[incs[0]]))
    if len(sets) == 1 and len(incs) == 1 and not poss and incs[0][1] == 1 and not rev and init == ('int', sets[0][1]):
        return e.binop(j, 'Add', init, e.count(j, kind, src, u[sets[0]], u[incs[0]]))
    if len(poss) == 1 and not incs and not sets and not rev:
        return ('lastpos', poss[0][1], u[poss[0]])
    return ('app', 'fold', (kind, root, lo, hi, init, tuple(sorted(upd.items()))))


@rt('Iterator::fold')
def it_fold(e, j, si, fr, t, k, a):
    v = a[0]
    if v[0] != 'it' or v[1] not in FULL or any(x[0] not in ('ref', 'deref') for x in v[4]):
        return NotImplemented
    kind, src, rev = v[1], v[2], v[5]
    clo = e.strip_refs(j.sides[si], a[2])
    if clo[0] != 'clo':
        return NotImplemented
    tup = a[1][0] == 'tup'
    init = list(a[1][1]) if tup else [a[1]]
    j2 = j.copy()
    sd = j2.sides[si]
    el = j2.fresh('u')
    j2.facts[el] = (0, FULL[kind], frozenset())
    syms = [j2.fresh('u') for _ in init]
    x = el
    for ad in v[4]:
        x = ('&', x) if ad[0] == 'ref' else x[1]
    bid = e.cfg.clo_body[si][clo[1]]
    b = e.cfg.progs[si].bodies[bid]
    j2.uid += 1
    f = Frame(bid, j2.uid)
    for i, y in enumerate([('&', clo) if b['locals'][1].startswith('&') else clo, ('tup', tuple(syms)) if tup else syms[0], x]):
        sd.store[('L', f.uid, i + 1)] = y
    sd.frames = [f]
    upd = [{} for _ in init]
    for j3, ev in e.advance(j2, si):
        if ev.kind != 'ret':
            raise Inconclusive('fold with effects')
        if any(el in ids(q) for q in j3.facts if q != el) or any(s in ids(q) for q in j3.facts for s in syms):
            raise Inconclusive('fold condition on elements is not a set of ranges')
        s = of_facts(j3.rng(el), FULL[kind])
        r = ev.args[0][1] if tup and ev.args[0][0] == 'tup' else [ev.args[0]]
        for i, y in enumerate(r):
            key = update_kind(y, syms[i], None)
            upd[i][key] = runion(upd[i].get(key, ()), s)
    e.folds += 1
    out = [summary(e, j, kind, src, rev, (), upd[i], init[i]) for i in range(len(init))]
    return e.ret_to(j, si, fr, t, ('tup', tuple(out)) if tup else out[0])


def step_one(e, j, si, work):
    """one basic block; True if this path ended or forked"""
    sd = j.sides[si]
    fr = sd.frames[-1]
    prog = e.cfg.progs[si]
    b = prog.bodies[fr.body]
    blk = b['blocks'][fr.bb]
    for s in blk['s']:
        if s[0] == '=':
            e.stmt(j, si, fr, s)
    t = blk['t']
    k = t[0]
    if k == 'assert':
        c = e.operand(j, si, fr, t[1])
        if t[4].startswith('Overflow') and not e.is_sub(b, fr.bb, t):
            fr.bb = t[3]
            return False
        if decide(j, c) is None:
            raise Inconclusive('loop body may panic')
        if decide(j, c) != bool(t[2]):
            return True
        fr.bb = t[3]
        return False
    if k == 'switch':
        v = e.operand(j, si, fr, t[1])
        if v[0] in ('id', 'app', 'lin'):
            v = j.pin(v)
        for val, bb in t[2]:
            c = mkcmp('eq', v, ('int', val))
            d = decide(j, c)
            if d is True:
                fr.bb = bb
                return False
            if d is False:
                continue
            j2 = j.copy()
            if e.assume(j2, c, True):
                j2.sides[si].frames[-1].bb = bb
                work.append(j2)
            if not e.assume(j, c, False):
                return True
        fr.bb = t[3]
        x = b['blocks'][fr.bb]
        return x['t'][0] == 'unreachable' and not x['s']
    out = []
    r = e.terminator(j, si, sd, fr, b, t, out, work)
    if out:
        raise Inconclusive('loop body with effects')
    return bool(r)


# ---- joint stepping ---------------------------------------------------------------
def cancel(e, j):
    """removes the common prefix of what both sides have written; False if they differ"""
    a, b = list(j.sides[0].marks), list(j.sides[1].marks)
    while a and b:
        x, y = a[0], b[0]
        if x[0] == 'txt' and y[0] == 'txt':
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] != y[1][:n]:
                return False
            a[0:1] = [('txt', x[1][n:])] if len(x[1]) > n else []
            b[0:1] = [('txt', y[1][n:])] if len(y[1]) > n else []
            continue
        if x[0] != y[0] or len(x) != len(y) or x[2:] != y[2:] or not e.equal(j, x[1], y[1]):
            return False
        a.pop(0)
        b.pop(0)
    j.sides[0].marks, j.sides[1].marks = tuple(a), tuple(b)
    return True


def shown(ps):
    return ' '.join(repr(p[1]) if p[0] == 'txt' else '{%s}' % show(p[1]) for p in ps) or 'nothing'


class RtStep(RtProduct):
    roles = None        # leaf roles of the object behind the first argument, per side

    def step(self, j, ea, eb):
        self.nevents += 1
        self.cur = j
        if self.mode == 'result' and (ea.kind == 'panic' or eb.kind == 'panic'):
            return []
        if ea.kind != eb.kind:
            self.fail(j, 'does `%s` where `%s` is required' % (ea.show(), eb.show()), ea, eb)
        oa, ob = j.sides[0].marks, j.sides[1].marks
        if not cancel(self, j):
            self.fail(j, 'writes %s where %s is required' % (shown(oa), shown(ob)), ea, eb)
        if ea.kind == 'query':
            if not all(self.equal(j, x, y) for x, y in zip(ea.args, eb.args)):
                self.fail(j, 'takes element %s of the set where %s is required' % (show(ea.args[1]), show(eb.args[1])), ea, eb)
            if len(j.sides[0].marks) + len(j.sides[1].marks) > 8:
                self.fail(j, 'writes %s where %s is required' % (shown(oa), shown(ob)), ea, eb)
            s, i = eb.args
            out = []
            for val in (True, False):
                j2 = j.copy()
                c = mkcmp('lt', i, ('app', 'len', (s,)))
                d = decide(j2, c)
                if d is not None and d != val:
                    continue
                if d is None and not assume(j2, c, val):
                    continue
                for si, e in ((0, ea), (1, eb)):
                    sd = j2.sides[si]
                    addr, p, v = e.muts[0]
                    if val:
                        self.put(sd, addr, p, v[:3] + (add(v[3], 1),) + v[4:])
                        x = some(self.elem(j2, si, v, nth(v[2], v[3])))
                    else:
                        x = NONE
                    self.put(sd, e.dest[0], e.dest[1], x)
                    sd.frames[-1].bb = e.target
                out.append(j2)
            return out
        if ea.kind != 'ret':
            raise Inconclusive('event %s' % ea.show())
        if j.sides[0].marks != j.sides[1].marks:
            self.fail(j, 'writes %s where %s is required' % (shown(oa), shown(ob)), ea, eb)
        self.same(j, ea.args[0], eb.args[0], ea, eb)
        return []

    def widen(self, j):
        # positions of iterators over the set beyond a few: any later position
        T = self.cfg.threshold
        m = {}
        for sd in j.sides:
            for a, v in list(sd.store.items()):
                if v[0] == 'it' and v[1] == 'set' and v[3][0] == 'int' and v[3][1] > T:
                    if v[3] not in m:
                        n = m[v[3]] = j.fresh('w')
                        j.facts[n] = (T + 1, None, frozenset())
                    sd.store[a] = v[:3] + (m[v[3]],) + v[4:]
        Product.widen(self, j)

    def same(self, j, x, y, ea, eb):
        """results agree; conditions are compared by cases"""
        for c in (y, x):
            if c[0] in ('cmp', 'not') and decide(j, c) is None:
                for val in (True, False):
                    j2 = j.copy()
                    if self.assume(j2, c, val):
                        self.same(j2, x, y, ea, eb)
                return
        if self.roles:
            # objects are compared role by role
            la, lb = leaves(self, j, 0, x), leaves(self, j, 1, y)
            if la is None or lb is None:
                if not self.equal(j, x, y):
                    self.fail(j, 'returns %s where %s is required' % (show(x), show(y)), ea, eb)
            else:
                self.cmp_roles(j, la, lb, 'the result', ea, eb)
            if self.obj:
                oa = leaves(self, j, 0, self.snap(j.sides[0], j.sides[0].store[self.obj]))
                ob = leaves(self, j, 1, self.snap(j.sides[1], j.sides[1].store[self.obj]))
                self.cmp_roles(j, oa, ob, 'the error state', ea, eb)
            return
        x, y = self.fold_eq(j, self.yields(j, 0, x)), self.fold_eq(j, self.yields(j, 1, y))
        if not self.equal(j, x, y):
            self.fail(j, 'returns %s where %s is required' % (show(x), show(y)), ea, eb)

    def yields(self, j, si, v):
        """an iterator over the set named by what it yields"""
        if v[0] == 'it' and v[1] == 'set' and all(x[0] in ('deref', 'ref', 'map') for x in v[4]):
            return ('app', 'iterof', (v[2], v[3], self.elem(j, si, v, nth(v[2], v[3]))))
        return v

    def equal(self, j, a, b, obl=None):
        if Product.equal(self, j, a, b, obl):
            return True
        if all(x[0] in ('lin', 'int') or x[0] == 'app' and x[1] in ('Add', 'Sub', 'len', 'len_utf8') for x in (a, b)):
            # the path leaves no room between them
            return decide(j, mkcmp('le', a, b)) is True and decide(j, mkcmp('le', b, a)) is True
        return False

    def fold_eq(self, j, v):
        """counts renamed under what the path says about newlines"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'app' and v[1] == 'count':
            kind, root, lo, hi, stop, cnt = v[2]
            if decide_known(j, ('app', 'none', (root, lo, hi, NL))):
                stop, cnt = rinter(stop, rcompl(NL, FULL[kind])), rinter(cnt, rcompl(NL, FULL[kind]))
                return ('app', 'count', (kind, root, lo, hi, stop, cnt)) if cnt else ('int', 0)
            return v
        if v[0] in ('id', 'int', 'str'):
            return v
        if v[0] == 'lin':
            return add(self.fold_eq(j, v[2]), v[1])
        return tuple(self.fold_eq(j, x) if isinstance(x, tuple) else x for x in v)

    def flag_sup(self):
        prog = self.cfg.progs[0]
        aid, roles = self.roles[0]
        return any(roles[f[0]] == ROLE_SUP and prog.ty(f[1]) == 'bool' for f in prog.adts[aid]['variants'][0]['fields'])

    def cmp_roles(self, j, la, lb, what, ea, eb):
        for r in sorted(set(la) & set(lb)):
            a, b = self.fold_eq(j, la[r]), self.fold_eq(j, lb[r])
            if r == ROLE_SUP and a[0] in ('int', 'cmp', 'not') and b[0] in ('int', 'id', 'lin') and self.flag_sup():
                x, y = decide(j, a), decide(j, mkcmp('ne', b, ('int', 0)))
                if a == mkcmp('ne', b, ('int', 0)) or (x is not None and x == y):
                    continue
            if not self.equal(j, a, b):
                self.fail(j, '%s of %s is %s, must be %s' % (r, what, show(a), show(b)), ea, eb)
        for r in set(lb) - set(la):
            self.fail(j, '%s of %s is missing' % (r, what), ea, eb)

    obj = None


ROLE_MAX, ROLE_SUP, ROLE_REP, ROLE_EXP, ROLE_LOC = 'furthest position', 'suppression depth', 'reporting flag', 'expected set', 'location'


def err_roles(e, si):
    """role of each leaf field of the error state: by type, and by what the constructor puts there"""
    prog = e.cfg.progs[si]
    ids_ = [aid for aid, a in prog.adts.items() if prog.adt_name(aid).split('::')[-1] == 'ErrorState']
    if not ids_:
        return None
    aid = ids_[0]
    roles = {}
    maxf = None
    for bid, b in prog.bodies.items():
        tys = [prog.ty(t) for t in b['locals'][:b['argc'] + 1]]
        if len(tys) == 2 and tys[1] == 'usize' and tys[0].split('::')[-1].startswith('ErrorState'):
            p = RtProduct(e.cfg)
            j = Joint()
            x = j.fresh('u')
            run.new_frame(j, si, prog, bid, [x])
            for j2, ev in p.advance(j, si):
                if ev.kind == 'ret' and ev.args[0][0] == 'adt':
                    for f, v in ev.args[0][3]:
                        if v == x:
                            maxf = f
    fields = prog.adts[aid]['variants'][0]['fields']
    for f in fields:
        ty = prog.ty(f[1]) if len(f) > 1 else ''
        if ty == 'usize':
            roles[f[0]] = ROLE_MAX if f[0] == maxf else ROLE_SUP
        elif ty == 'bool':
            roles[f[0]] = ROLE_REP
        elif ty.split('::')[-1].startswith('ExpectedSet') or 'BTreeSet' in ty:
            roles[f[0]] = ROLE_EXP
        else:
            roles[f[0]] = 'field ' + f[0]
    flags = [f for f in roles if roles[f] == ROLE_REP]
    if len(flags) == 2 and ROLE_SUP not in roles.values():
        # suppression kept as a flag: the other one is what asking for a report raises
        for bid, b in prog.bodies.items():
            tys = [prog.ty(t) for t in b['locals'][:b['argc'] + 1]]
            if len(tys) == 2 and tys[0] == '()' and tys[1].startswith('&mut') and tys[1].split('::')[-1].endswith('ErrorState'):
                p = RtProduct(e.cfg)
                j = Joint()
                addr = ('O', ('id', -9, 'E'))
                j.sides[si].store[addr] = ('adt', prog.adt_name(aid), '', tuple((f[0], ('id', -30 - i, '')) for i, f in enumerate(fields)))
                run.new_frame(j, si, prog, bid, [('id', -9, 'E')])
                up = set()
                for j2, ev in p.advance(j, si):
                    up |= {f for f, v in j2.sides[si].store[addr][3] if v == ('int', 1)}
                if len(up) == 1 and up < set(flags):
                    roles[[f for f in flags if f not in up][0]] = ROLE_SUP
    return aid, roles


def initial_err(e, si, sym):
    """an error state whose leaves are the given names"""
    prog = e.cfg.progs[si]
    aid, roles = e.roles[si]
    fs = []
    for f in prog.adts[aid]['variants'][0]['fields']:
        r = roles[f[0]]
        v = sym.setdefault(r, ('id', -20 - len(sym), 'u' if f[1] == 'usize' or r == ROLE_SUP else ''))
        if r == ROLE_SUP and prog.ty(f[1]) == 'bool':
            v = mkcmp('ne', v, ('int', 0))
        if r == ROLE_EXP and 'BTreeSet' not in f[1]:
            v = wrap_set(prog, f[1], v)
        fs.append((f[0], v))
    return ('adt', prog.adt_name(aid), '', tuple(fs))


def wrap_set(prog, ty, v):
    n = prog.ty(ty)
    for aid, a in prog.adts.items():
        if prog.adt_name(aid) == n or prog.adt_name(aid).split('::')[-1] == n.split('::')[-1]:
            f = a['variants'][0]['fields'][0]
            return ('adt', prog.adt_name(aid), '', ((f[0] if not f[0].isdigit() else int(f[0]), v),))
    return v


def leaves(e, j, si, v):
    """leaf values by role of an error state, a report, or None for other values"""
    if v[0] != 'adt':
        return None
    n = v[1].split('::')[-1]
    if n == 'ErrorState':
        roles = e.roles[si][1]
        out = {}
        for f, x in v[3]:
            if x[0] == 'adt' and roles[f] == ROLE_EXP:
                x = x[3][0][1]
            out[roles[f]] = x
        return out
    if n in ('ParseError', 'Report'):
        out = {}
        for f, x in v[3]:
            if f == 'location':
                out[ROLE_LOC] = x
            elif f == 'expected':
                out[ROLE_EXP] = x[3][0][1] if x[0] == 'adt' else x
        return out
    return None


# ---- tasks ---------------------------------------------------------------------------
class RtTask:
    def __init__(self, name, ba, bbs, args, assume_=(), bounds_=(), kind='', roles=False, mode='result'):
        self.name, self.ba, self.bbs, self.args = name, ba, bbs, args
        self.assume, self.bounds, self.kind, self.roles, self.mode = assume_, bounds_, kind, roles, mode


def impl_fns(prog):
    """(trait, self type, method) -> body, of the runtime's trait implementations"""
    out = {}
    for bid, b in prog.bodies.items():
        if b.get('kind') != 'fn' or b.get('crate') != 'peg_runtime':
            continue
        n = prog.strip(b['name'])
        m = re.search(r'impl (?:[\w:]*::)?(\w+)(?:<.*?>)? for (str|\[T\]|\[u8\]|[\w:]+(?:<\w+>)?)>::(\w+)$', n)
        if not m:
            m2 = re.match(r'<(.+?) as (?:[\w:]*::)?(\w+)(?:<.*>)?>::(\w+)$', n)
            if m2:
                out[(m2.group(2), re.sub(r'<.*', '', m2.group(1)).split('::')[-1], m2.group(3))] = b
            continue
        out[(m.group(1), m.group(2), m.group(3))] = b
    return out


_ref = None


def reference():
    global _ref
    if _ref is None:
        ok, ms, fx = build.spec('spec_rt', {'src/lib.rs': open(os.path.join(build.VERIF, 'spec', 'rt.rs')).read()})
        if not ok:
            raise build.BuildFailed('reference runtime does not compile', [m for m in ms if m['level'] == 'error'], ms[0]['rendered'] if ms else '')
        _ref = facts.Program([os.path.join(fx, 'spec_rt.json'), os.path.join(fx, 'peg+std.json')], ['spec_rt', 'peg'])
    return _ref


BASE = {'src/lib.rs': '::peg::parser!{ grammar g() for str { pub rule a() = "a" } }\n'}


def subject(features=(), nodefault=False):
    ok, ms, fx = build.wit('wit_base', BASE, features, nodefault)
    if not ok:
        raise build.BuildFailed('the tree does not build', [m for m in ms if m['level'] == 'error'])
    return facts.Program([os.path.join(fx, 'wit_base.json'), run.rt_facts(fx, features, nodefault)], ['wit_base', 'peg_runtime', 'peg'])


POS, POS2 = ('id', -12, 'u'), ('id', -13, 'u')
LEN = ('app', 'len', (('app', 'deref', (ROOT,)),))
INB = (('le', POS, LEN),)


def run_task(A, B, t, bb):
    cfg = RtConfig(A, B)
    prod = RtStep(cfg)
    prod.mode = t.mode
    prod.known_bounds = set(t.bounds)
    j = Joint()
    for op, x, y in t.assume:
        assume(j, mkcmp(op, x, y), True)
    if t.roles:
        prod.roles = (err_roles(prod, 0), err_roles(prod, 1))
        if None in prod.roles:
            raise Inconclusive('no ErrorState type')
    sym = {}
    for si, prog, bid in ((0, A, t.ba), (1, B, bb)):
        if bid is None:
            continue
        args = []
        for a in t.args:
            if a == 'ERR&':
                addr = ('O', ('id', -9, 'E'))
                prod.obj = addr
                j.sides[si].store[addr] = initial_err(prod, si, sym)
                args.append(('id', -9, 'E'))
            elif a == 'ERR':
                args.append(initial_err(prod, si, sym))
            elif a == 'SET':
                b = prog.bodies[bid]
                ty = re.sub(r"^&('\w+ )?", '', b['locals'][1])
                args.append(('&', wrap_set(prog, ty, ('id', -14, ''))))
            else:
                args.append(a)
        run.new_frame(j, si, prog, bid, args)
    if t.mode == 'panic':
        n = 0
        for j1, ev in prod.advance(j, 0):
            n += 1
            if ev.kind == 'panic':
                e = Mismatch('may panic (%s)' % ev.name)
                e.ea, e.trail = ev, tuple('where ' + fact_text(f) for f in j1.facts.items() if f[1] != j.facts.get(f[0]))
                raise e
        prod.nevents = prod.nstates = n
    else:
        prod.run(j, t.name)
    return prod


def panics(A, bid, t):
    """can the function panic under the assumptions of a task (None: not decided)"""
    try:
        run_task(A, A, RtTask(t.name, bid, [None], t.args, t.assume, t.bounds, mode='panic'), None)
        return False
    except Mismatch:
        return True
    except (Inconclusive, RecursionError):
        return None


def fact_text(f):
    t, (lo, hi, ex) = f
    s = '%s - %s' % (show(t[1]), show(t[2])) if t[0] == '-' else show(t)
    if lo is not None and lo == hi:
        return '%s = %d' % (s, lo)
    return '%s in [%s, %s]' % (s, '..' if lo is None else lo, '..' if hi is None else hi)


def check(ctx, A, B, tasks):
    """runs tasks; a task holds if it agrees with one of its references"""
    for t in tasks:
        if t.ba is None:
            ctx.violation('missing ' + t.name, 'the runtime has no function `%s`' % t.name)
            continue
        best = None
        und = None
        ctx.count('programs')
        for bb in (t.bbs or [None]):
            try:
                p = run_task(A, B, t, bb)
                ctx.count('states', p.nstates)
                ctx.count('events', p.nevents)
                ctx.count('mir_steps', p.nsteps)
                ctx.count('loops and chains summarised', p.folds)
                for u in p.unmodelled:
                    if u not in ctx.notes:
                        ctx.notes.append(u)
                ctx.sample('%s: %d paths, agrees' % (t.name, p.nevents))
                best = True
                break
            except Mismatch as e:
                best = best or e
            except (Inconclusive, RecursionError) as e:
                und = e
        if best is True:
            continue
        if best is None or und is not None:
            # not decided is not a violation: the shape of the code is outside what is modelled
            ctx.count('not decided')
            ctx.notes.append('NOT DECIDED %s: %s' % (t.name, und))
            continue
        ev = getattr(best, 'ea', None)
        ctx.violation('%s %s' % (t.name, best), '%s (%s)\n%s\nat: %s\npath: %s' % (t.name, A.bodies[t.ba]['span'], best, ev.span if ev else '', '; '.join(best.trail)))


def fn(prog, name):
    for bid, b in prog.bodies.items():
        if b.get('kind') == 'fn' and prog.strip(b['name']) == name:
            return bid
    return None


def io_tasks(A, B, mode):
    """operations of the built-in inputs"""
    fs = impl_fns(A)
    out = []

    def add_(tr, ty, m, ref, args, asm, bnd):
        b = fs.get((tr, ty, m))
        out.append(RtTask('%s::%s for %s' % (tr, m, ty), b['id'] if b else None, [fn(B, ref)] if mode == 'result' else [None], args, asm, bnd, mode=mode))
    inb2 = (('le', POS, POS2), ('le', POS2, LEN), ('le', POS, LEN))
    for ty, el, byt, mod in (('str', 'str', 'str', 'strs'), ('[T]', '[T]', '[u8]', 'slices')):
        add_('Parse', ty, 'start', mod + '::start', [ROOT], (), ())
        add_('Parse', ty, 'is_eof', mod + '::is_eof', [ROOT, POS], INB, (POS,))
        add_('ParseElem', el, 'parse_elem', mod + '::parse_elem', [ROOT, POS], INB, (POS,))
        add_('ParseLiteral', byt, 'parse_string_literal', mod + '::parse_string_literal', [ROOT, POS, LIT], INB, (POS,))
        add_('ParseSlice', ty, 'parse_slice', mod + '::parse_slice', [ROOT, POS, POS2], inb2, (POS, POS2))
        if mode == 'panic':
            add_('Parse', ty, 'position_repr', None, [ROOT, POS], INB, (POS,))
    return out


def pos_tasks(A, B):
    fs = impl_fns(A)
    out = []
    for ty, mod in (('str', 'strs'), ('[T]', 'slices')):
        b = fs.get(('Parse', ty, 'position_repr'))
        out.append(RtTask('position_repr for ' + ty, b['id'] if b else None, [fn(B, mod + '::position_repr')], [ROOT, POS], INB, (POS,)))
    return out


SELF, FMT = ('id', -15, ''), ('id', -16, '')


def text_tasks(A, B, linecol):
    fs = impl_fns(A)
    out = []
    if linecol:
        b = fs.get(('Display', 'LineCol', 'fmt'))
        return [RtTask('Display of LineCol', b['id'] if b else None, [fn(B, 'strs::fmt')], [SELF, FMT])]
    b = fs.get(('Display', 'ParseError', 'fmt'))
    out.append(RtTask('Display of ParseError', b['id'] if b else None, [fn(B, 'errors::fmt')], [SELF, FMT]))
    b = fs.get(('Display', 'ExpectedSet', 'fmt'))
    out.append(RtTask('Display of ExpectedSet', b['id'] if b else None, [fn(B, 'sets::fmt'), fn(B, 'sets::fmt_join')], ['SET', FMT]))
    b = [x for bid, x in A.bodies.items() if A.strip(x['name']).split('::')[-2:] == ['ExpectedSet', 'tokens'] and x.get('kind') == 'fn']
    out.append(RtTask('ExpectedSet::tokens', b[0]['id'] if b else None, [fn(B, 'sets::tokens')], ['SET']))
    return out


def mark_fns(A):
    """functions with the signature of a failure mark that generated code calls"""
    sig = set()
    cfg = Config(A, A)
    for bid, b in A.bodies.items():
        if b.get('crate') != 'peg_runtime' and b.get('kind') in ('fn', 'closure'):
            for blk in b['blocks']:
                t = blk['t']
                if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['t'] == 'fn' and cfg.is_mark(0, t[1][1]):
                    sig.add(t[1][1]['id'])
    return sorted(sig)


def err_tasks(A, B):
    out = []
    ms = mark_fns(A)
    if not ms:
        out.append(RtTask('mark_failure', None, [], []))
    for m in ms:
        out.append(RtTask(A.strip(A.bodies[m]['name']), m, [fn(B, 'errors::mark_failure')], ['ERR&', POS, LIT], roles=True))

    def named(n):
        for bid, b in A.bodies.items():
            if b.get('kind') == 'fn' and A.strip(b['name']).split('::')[-2:] == ['ErrorState', n]:
                return bid
    for n, args in (('new', [POS]), ('reparse_for_error', ['ERR&']), ('into_parse_error', ['ERR', ROOT])):
        b = named(n)
        if b:
            out.append(RtTask('ErrorState::' + n, b, [fn(B, 'errors::' + n)], args, roles=True))
    return out
