"""Product dataflow analysis over MIR facts.

Two bodies (A: code under analysis, B: reference code) are analysed together by an abstract
interpretation in a provenance domain: every value is the name of where it came from (a parameter,
the result of the n-th observed event, a pure function of such values), integers are such names plus
a constant, and branch conditions are kept as interval / equality facts about names.  Both bodies
advance to their next *event* (rule call, input query, failure mark, user code, return, panic); the
events must agree in kind, callee, arguments, suppression state and memo state.  Abstract states are
canonicalised (live values only, names renumbered) and explored to a fixpoint, so loops are covered for
every number of iterations.  Nothing is executed and no solver is involved.
"""
import re, time
from . import models

UNIT = ('tup', ())
ERR = ('id', -1, 'ERR')
STATE = ('id', -2, 'STATE')
INPUT = ('id', -3, 'INPUT')


class Mismatch(Exception):
    pass


class Inconclusive(Exception):
    pass


class Infeasible(Exception):
    pass


def mkint(n):
    return ('int', n)


def split(v):
    k = v[0]
    if k == 'int':
        return None, v[1]
    if k == 'lin':
        return v[2], v[1]
    return v, 0


def fld(base, vn, key):
    # every function leaves the suppression depth as it found it (compared at its return), so the depth an
    # error state holds after any number of calls is still the one it held at entry
    if key == 'suppress_fail' and base[0] in ('id', 'app'):
        base = ERR
    return ('app', 'fld', (base, vn, key))


def add(v, c):
    b, k = split(v)
    if b is None:
        return ('int', k + c)
    if k + c == 0:
        return b
    return ('lin', k + c, b)


def is_unsigned(t):
    return (t[0] == 'id' and t[2] == 'u') or (t[0] == 'app' and t[1] in ('len', 'discr', 'count', 'len_utf8'))


def ids_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'id':
            out.add(v)
            return
        for x in v:
            if isinstance(x, tuple):
                ids_in(x, out)


class Frame:
    __slots__ = ('body', 'bb', 'si', 'uid', 'ret', 'retbb', 'hook')

    def __init__(self, body, uid, ret=None, retbb=None, hook=None):
        self.body = body
        self.bb = 0
        self.si = 0
        self.uid = uid
        self.ret = ret          # resolved destination place in the caller (addr, path)
        self.retbb = retbb      # caller block to continue in
        self.hook = hook

    def copy(self):
        f = Frame(self.body, self.uid, self.ret, self.retbb, self.hook)
        f.bb = self.bb
        f.si = self.si
        return f


class Side:
    __slots__ = ('frames', 'store', 'marks', 'out')

    def __init__(self):
        self.frames = []
        self.store = {}
        self.marks = ()
        self.out = ()

    def copy(self):
        s = Side()
        s.frames = [f.copy() for f in self.frames]
        s.store = dict(self.store)
        s.marks = self.marks
        s.out = self.out
        return s


class Joint:
    __slots__ = ('sides', 'facts', 'alias', 'nid', 'uid', 'trail', 'memo')

    def __init__(self):
        self.sides = [Side(), Side()]
        self.facts = {}
        self.alias = {}
        self.nid = 0
        self.uid = 0
        self.trail = ()
        self.memo = {}

    def copy(self):
        j = Joint()
        j.sides = [s.copy() for s in self.sides]
        j.facts = dict(self.facts)
        j.alias = dict(self.alias)
        j.nid = self.nid
        j.uid = self.uid
        j.trail = self.trail
        j.memo = dict(self.memo)
        return j

    def fresh(self, kind=''):
        self.nid += 1
        return ('id', self.nid, kind)

    # ---- facts ---------------------------------------------------------
    def rng(self, t):
        r = self.facts.get(t)
        if r is None:
            if is_unsigned(t):
                return (0, None, frozenset())
            if t[0] == 'lsum':
                lo = hi = 0
                for x, c in t[1]:
                    a, b, _ = self.rng(x)
                    if c < 0:
                        a, b = b, a
                    lo = None if lo is None or a is None else lo + c * a
                    hi = None if hi is None or b is None else hi + c * b
                return (lo, hi, frozenset())
            return (None, None, frozenset())
        return r

    def pin(self, v):
        """value of v if facts pin it to a constant"""
        b, c = split(v)
        if b is None:
            return v
        lo, hi, ex = self.rng(b)
        if lo is not None and lo == hi:
            return ('int', lo + c)
        return v


def norm_cmp(op, a, b):
    """returns ('const', bool) or ('rng', term, op, k) or ('sym', key, negate)"""
    if op in ('gt', 'ge'):
        op, a, b = {'gt': 'lt', 'ge': 'le'}[op], b, a
    # op in lt, le, eq
    if a == b:
        return ('const', op != 'lt')
    sa, sb = split(a), split(b)
    numeric = a[0] in ('int', 'lin') or b[0] in ('int', 'lin')
    if sa[0] is None and sb[0] is None:
        x, y = sa[1], sb[1]
        return ('const', {'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    if sa[0] is not None and sa[0] == sb[0]:
        x, y = sa[1], sb[1]
        return ('const', {'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    for x in (sa[0], sb[0]):
        if x is not None and x[0] == 'app' and x[1] in ('Add', 'Sub'):
            return linear(op, sa[0] or ('int', 0), sb[0] or ('int', 0), sb[1] - sa[1])
    if sb[0] is None:
        return ('rng', sa[0], op, sb[1] - sa[1])
    if sa[0] is None:
        # k op t
        k = sa[1] - sb[1]
        if op == 'eq':
            return ('rng', sb[0], 'eq', k)
        return ('rng', sb[0], {'lt': 'gt', 'le': 'ge'}[op], k)
    if op == 'eq' and not numeric:
        for x, y in ((a, b), (b, a)):
            if x[0] == 'str' and y[0] == 'str':
                return ('const', x[1] == y[1])
    # a - b op k
    t1, t2 = sa[0], sb[0]
    k = sb[1] - sa[1]
    if repr(t1) <= repr(t2):
        return ('rng', ('-', t1, t2), op, k)
    if op == 'eq':
        return ('rng', ('-', t2, t1), 'eq', -k)
    return ('rng', ('-', t2, t1), {'lt': 'gt', 'le': 'ge'}[op], -k)


def lincomb(t, c, out):
    """adds c*t to the linear combination; returns the constant part"""
    if t[0] == 'int':
        return c * t[1]
    if t[0] == 'lin':
        return c * t[1] + lincomb(t[2], c, out)
    if t[0] == 'app' and t[1] == 'Add':
        return lincomb(t[2][0], c, out) + lincomb(t[2][1], c, out)
    if t[0] == 'app' and t[1] == 'Sub':
        return lincomb(t[2][0], c, out) + lincomb(t[2][1], -c, out)
    out[t] = out.get(t, 0) + c
    return 0


def linear(op, t1, t2, k):
    out = {}
    k -= lincomb(t1, 1, out) + lincomb(t2, -1, out)
    xs = sorted(((t, c) for t, c in out.items() if c), key=lambda x: repr(x[0]))
    if not xs:
        return ('const', {'lt': 0 < k, 'le': 0 <= k, 'eq': 0 == k}[op])
    if xs[0][1] < 0:
        # -(x) op k  is  x op' -k
        xs = [(t, -c) for t, c in xs]
        k = -k
        op = {'eq': 'eq', 'lt': 'gt', 'le': 'ge'}[op]
    if len(xs) == 1 and xs[0][1] == 1:
        return ('rng', xs[0][0], op, k)
    if len(xs) == 2 and (xs[0][1], xs[1][1]) == (1, -1):
        return ('rng', ('-', xs[0][0], xs[1][0]), op, k)
    return ('rng', ('lsum', tuple(xs)), op, k)


def decide_rng(r, op, k):
    lo, hi, ex = r
    if op == 'eq':
        if lo is not None and lo == hi:
            return lo == k
        if (lo is not None and k < lo) or (hi is not None and k > hi) or k in ex:
            return False
        return None
    if op == 'lt':
        return decide_rng(r, 'le', k - 1)
    if op == 'gt':
        x = decide_rng(r, 'le', k)
        return None if x is None else not x
    if op == 'ge':
        x = decide_rng(r, 'le', k - 1)
        return None if x is None else not x
    # le
    if hi is not None and hi <= k:
        return True
    if lo is not None and lo > k:
        return False
    return None


def assume_rng(r, op, k, val):
    lo, hi, ex = r
    if op == 'eq':
        if val:
            return (k, k, frozenset())
        ex = ex | {k}
    else:
        if op == 'lt':
            op, k = 'le', k - 1
        elif op == 'gt':
            op, val = 'le', not val
        elif op == 'ge':
            op, k, val = 'le', k - 1, not val
        if val:
            hi = k if hi is None else min(hi, k)
        else:
            lo = k + 1 if lo is None else max(lo, k + 1)
    while lo is not None and lo in ex:
        lo += 1
    while hi is not None and hi in ex:
        hi -= 1
    ex = frozenset(e for e in ex if (lo is None or e > lo) and (hi is None or e < hi))
    return (lo, hi, ex)


def bneg(c):
    if c[0] == 'not':
        return c[1]
    if c[0] == 'int':
        return ('int', 1 - c[1])
    return ('not', c)


def mkcmp(op, a, b):
    if op == 'ne':
        return bneg(mkcmp('eq', a, b))
    if op == 'eq':
        # comparison of boolean conditions with constants
        for x, y in ((a, b), (b, a)):
            if x[0] in ('cmp', 'not') and y[0] == 'int':
                return x if y[1] else bneg(x)
    n = norm_cmp(op, a, b)
    if n[0] == 'const':
        return ('int', 1 if n[1] else 0)
    return ('cmp', n[1], n[2], n[3])


def decide(j, c):
    """truth of boolean condition value c, or None"""
    k = c[0]
    if k == 'int':
        return c[1] != 0
    if k == 'not':
        d = decide(j, c[1])
        return None if d is None else not d
    if k == 'cmp':
        return decide_rng(j.rng(c[1]), c[2], c[3])
    d = decide_rng(j.rng(c), 'eq', 0)
    return None if d is None else not d


def assume(j, c, val):
    """assume boolean condition; False if contradictory"""
    k = c[0]
    if k == 'int':
        return (c[1] != 0) == val
    if k == 'not':
        return assume(j, c[1], not val)
    if k == 'cmp':
        t, op, kk = c[1], c[2], c[3]
    else:
        t, op, kk, val = c, 'eq', 0, not val
    r = assume_rng(j.rng(t), op, kk, val)
    if r[0] is not None and r[1] is not None and r[0] > r[1]:
        return False
    j.facts[t] = r
    return True


# ---------------------------------------------------------------------------
class Event:
    __slots__ = ('kind', 'name', 'args', 'dest', 'target', 'dty', 'span', 'raw', 'muts', 'desc', 'err', 'state', 'sig', 'callee')

    def __init__(self, kind, name, args=(), dest=None, target=None, dty='', span='', raw='', muts=(), err=None, state=None):
        self.kind = kind
        self.name = name
        self.args = args        # snapshots
        self.dest = dest
        self.target = target
        self.dty = dty
        self.span = span
        self.raw = raw
        self.muts = muts        # [(index, addr, path)]
        self.err = err          # place of the error state passed, if any
        self.state = state
        self.callee = None
        self.sig = None

    def show(self):
        if self.kind == 'ret':
            return 'return %s' % show(self.args[0])
        return '%s %s(%s)' % (self.kind, self.name if isinstance(self.name, str) else show(self.name),
                              ', '.join(show(a) for a in self.args))


def show(v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if d > 5:
        return '..'
    if k == 'int':
        return str(v[1])
    if k == 'str':
        return repr(v[1])
    if k == 'id':
        return {-1: 'ERR', -2: 'STATE', -3: 'input'}.get(v[1], '%s%s' % (v[2] or 'v', v[1]))
    if k == 'lin':
        return '%s%+d' % (show(v[2], d), v[1])
    if k == 'adt':
        return '%s(%s)' % (v[2] or v[1], ', '.join(show(x, d + 1) for _, x in v[3]))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x, d + 1) for x in v[1])
    if k == 'arr':
        return '[%s]' % ', '.join(show(x, d + 1) for x in v[1])
    if k == 'app':
        return '%s(%s)' % (v[1], ', '.join(show(x, d + 1) for x in v[2]))
    if k == '&':
        return '&' + show(v[1], d + 1)
    if k == 'vec':
        return 'vec<%s,len %s>' % (show(v[1], d + 1), show(v[2], d + 1))
    if k == 'clo':
        return 'closure'
    if k == 'ref':
        return '&place'
    if k == 'cmp':
        return '%s %s %s' % (show(v[1]), v[2], v[3])
    return str(v)[:60]


class Config:
    """what is an event, what is inlined, how names of the two sides correspond"""
    max_states = 6000
    max_steps = 60000
    max_seconds = 150
    threshold = 3
    mark_pred = None
    query_traits = ('ParseElem', 'ParseLiteral')
    pure_traits = ('Parse', 'ParseSlice')
    user_prefixes = ('ext::',)
    noinline = ()
    event_names = ()
    ignore = ('io::_print',)

    def __init__(self, A, B):
        self.progs = (A, B)
        self.clo_body = ({}, {})
        self.fn_const = ({}, {})
        self.rule_names = ({}, {})     # body id -> rule label
        self.cache_map = {}            # A cache field -> B cache field
        self.rec_ids = ({}, {})
        self.input_types = (set(), set())
        self.state_names = ({'ParseState'}, {'ParseState'})   # the type holding memo tables, found from signatures

    # -- hooks, overridable
    def rule_of(self, side, k):
        return self.rule_names[side].get(k['id'])

    def is_mark(self, side, k):
        n = k['name']
        if 'ErrorState' not in n:
            return False
        b = self.progs[side].bodies.get(k['id'])
        if b is None:
            return False
        tys = [self.progs[side].ty(t) for t in b['locals'][1:b['argc'] + 1]]
        return len(tys) == 3 and tys[1] == 'usize' and tys[2] == '&str' and 'ErrorState' in tys[0]

    def classify(self, side, k, canon):
        """-> (kind, name) of an event, ('pure', name), ('inline', body) or None (default handling)"""
        r = self.rule_of(side, k)
        if r is not None:
            return ('rule', r)
        if self.is_mark(side, k):
            return ('mark', 'mark')
        if 'trait' in k:
            tr = self.progs[side].strip(k['trait']).split('::')[-1]
            if tr in self.query_traits:
                return ('query', tr + '::' + k['method'])
            if tr in self.pure_traits:
                return ('pure', tr + '::' + k['method'])
        if canon in self.ignore:
            return ('ignore', canon)
        for p in self.user_prefixes:
            if canon.startswith(p) or ('::' + p) in canon:
                return ('user', canon)
        if canon in self.event_names:
            return ('user', canon)
        return None


# built-in projections: nested as deeply as the data is
KEEP_DEEP = ('fld', 'deref', 'elem', 'variant')


class Product:
    def __init__(self, cfg):
        self.cfg = cfg
        self.born = time.time()
        self.visited = set()
        self.obl_seen = set()
        self.obligations = []
        self.nstates = 0
        self.nevents = 0
        self.nsteps = 0
        self.unmodelled = set()
        self.consts = set()
        self.bodies_seen = (set(), set())
        self.quiet_panics = False

    # ---- values --------------------------------------------------------
    def load(self, sd, addr, path):
        if addr in sd.store:
            v = sd.store[addr]
        elif addr[0] == 'O':
            t = addr[1]
            v = t[1] if t[0] == '&' else ('app', 'deref', (t,))
        else:
            v = ('undef',)
        for e in path:
            v = self.project(v, e)
        return v

    def project(self, v, e):
        k = v[0]
        if e[0] == 'f':
            vn, key = e[1], e[2]
            if k == 'adt':
                for kk, x in v[3]:
                    if kk == key:
                        return x
                return ('app', 'fld', (v, vn, key))
            if k in ('tup', 'arr'):
                if key < len(v[1]):
                    return v[1][key]
            if k == 'clo':
                return v[2][key]
            if k == 'upd':
                for kk, x in v[2]:
                    if kk == (vn, key):
                        return x
                return self.project(v[1], e)
            if k == 'undef':
                return v
            return fld(v, vn, key)
        if e[0] == 'i':
            return ('app', 'index', (v, e[1]))
        return ('app', 'proj' + e[0], (v,) + tuple(e[1:]))

    def update(self, v, path, val):
        if not path:
            return val
        e = path[0]
        sub = self.update(self.project(v, e), path[1:], val)
        k = v[0]
        if e[0] == 'f':
            vn, key = e[1], e[2]
            if k == 'adt':
                return ('adt', v[1], v[2], tuple((kk, sub if kk == key else x) for kk, x in v[3]))
            if k == 'tup':
                return ('tup', tuple(sub if i == key else x for i, x in enumerate(v[1])))
            if k == 'clo':
                return ('clo', v[1], tuple(sub if i == key else x for i, x in enumerate(v[2])))
            if k == 'upd':
                d = dict(v[2])
                base = v[1]
            else:
                d = {}
                base = v
            d[(vn, key)] = sub
            if sub == fld(base, vn, key):
                del d[(vn, key)]
                if not d:
                    return base
            return ('upd', base, tuple(sorted(d.items(), key=repr)))
        return ('app', 'store', (v, e, sub))

    def put(self, sd, addr, path, val):
        if path:
            val = self.update(self.load(sd, addr, ()), path, val)
        sd.store[addr] = val

    def target(self, v):
        """place a reference value points to"""
        if v[0] == 'ref':
            return v[1], v[2]
        return ('O', v), ()

    def mkref(self, addr, path):
        if addr[0] == 'O' and not path:
            return addr[1]
        return ('ref', addr, path)

    def snap(self, sd, v):
        """copy of a value with references replaced by what they currently point to"""
        k = v[0]
        if k in ('int', 'str', 'undef'):
            return v
        if k == 'id':
            if v == ERR or v == STATE:
                return v
            a = ('O', v)
            if a in sd.store:
                return ('&', self.snap(sd, sd.store[a]))
            return v
        if k == 'ref':
            x = self.snap(sd, self.load(sd, v[1], v[2]))
            if x[0] == 'app' and x[1] == 'deref':
                return x[2][0]
            return ('&', x)
        if k == 'adt':
            return self.eta(('adt', v[1], v[2], tuple((n, self.snap(sd, x)) for n, x in v[3])))
        if k in ('tup', 'arr'):
            return (k, tuple(self.snap(sd, x) for x in v[1]))
        if k == 'clo':
            return ('clo', v[1], tuple(self.snap(sd, x) for x in v[2]))
        if k == 'upd':
            return ('upd', self.snap(sd, v[1]), tuple((n, self.snap(sd, x)) for n, x in v[2]))
        if k == 'app':
            a = ('O', v)
            if a in sd.store:
                return ('&', self.snap(sd, sd.store[a]))
            r = ('app', v[1], tuple(self.snap(sd, x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2]))
            return r
        if k == '&':
            return ('&', self.snap(sd, v[1]))
        return v

    def eta(self, v):
        """adt whose fields are all projections of the same value is that value"""
        if v[0] == 'adt' and v[3]:
            t = None
            for kk, x in v[3]:
                if x[0] == 'app' and x[1] == 'fld' and x[2][2] == kk and (x[2][1] or v[2]) == v[2] and (t is None or t == x[2][0]):
                    t = x[2][0]
                else:
                    return v
            return ('eta', t, v[2], v)if False else v
        return v

    # ---- comparison ----------------------------------------------------
    def equal(self, j, a, b, obl=None):
        if a == b:
            return True
        ka, kb = a[0], b[0]
        a1, b1 = a, b
        if ka in ('id', 'app', 'lin'):
            a1 = j.pin(a)
        if kb in ('id', 'app', 'lin'):
            b1 = j.pin(b)
        if a1 == b1:
            return True
        if a1 != a or b1 != b:
            a, b = a1, b1
            ka, kb = a[0], b[0]
        # reference to a copy of something equals the thing referenced
        if ka == '&' and kb == '&':
            return self.equal(j, a[1], b[1], obl)
        if ka == '&' and kb in ('id', 'app'):
            return self.equal(j, a[1], ('app', 'deref', (b,)), obl)
        if kb == '&' and ka in ('id', 'app'):
            return self.equal(j, ('app', 'deref', (a,)), b[1], obl)
        if ka == 'adt' and kb == 'adt':
            if a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]):
                return False
            db = dict(b[3])
            for n, x in a[3]:
                if n not in db or not self.equal(j, x, db[n], obl):
                    return False
            return True
        if ka == 'adt' and kb in ('id', 'app'):
            return self.eq_eta(j, a, b, obl)
        if kb == 'adt' and ka in ('id', 'app'):
            return self.eq_eta(j, b, a, obl, True)
        if ka == 'upd' or kb == 'upd':
            ba, da = (a[1], dict(a[2])) if ka == 'upd' else (a, {})
            bb, db = (b[1], dict(b[2])) if kb == 'upd' else (b, {})
            if not self.equal(j, ba, bb, obl):
                return False
            for kk in set(da) | set(db):
                x = da.get(kk) or self.project(ba, ('f',) + kk)
                y = db.get(kk) or self.project(bb, ('f',) + kk)
                if not self.equal(j, x, y, obl):
                    return False
            return True
        if ka == 'tup' and kb in ('id', 'app'):
            return all(self.equal(j, x, self.project(b, ('f', '', i)), obl) for i, x in enumerate(a[1]))
        if kb == 'tup' and ka in ('id', 'app'):
            return all(self.equal(j, self.project(a, ('f', '', i)), x, obl) for i, x in enumerate(b[1]))
        if ka == kb and ka in ('tup', 'arr'):
            return len(a[1]) == len(b[1]) and all(self.equal(j, x, y, obl) for x, y in zip(a[1], b[1]))
        if ka == 'lin' and kb == 'lin':
            return a[1] == b[1] and self.equal(j, a[2], b[2], obl)
        if ka == 'app' and kb == 'app':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return False
            for x, y in zip(a[2], b[2]):
                tx = isinstance(x, tuple) and x and isinstance(x[0], str)
                if tx and isinstance(y, tuple) and y:
                    if not self.equal(j, x, y, obl):
                        return False
                elif x != y:
                    return False
            return True
        if ka == 'vec' and kb == 'vec':
            return self.equal(j, a[1], b[1], obl) and self.equal(j, a[2], b[2], obl)
        if ka in ('clo', 'fn') and kb in ('clo', 'fn'):
            if ka == 'clo' and kb == 'clo' and a[1] == b[1]:
                return len(a[2]) == len(b[2]) and all(self.equal(j, x, y, obl) for x, y in zip(a[2], b[2]))
            if obl is not None:
                obl.append((a, b))
                return True
            return False
        if ka in ('cmp', 'not') or kb in ('cmp', 'not'):
            da, db = decide(j, a) if ka in ('cmp', 'not', 'int') else None, decide(j, b) if kb in ('cmp', 'not', 'int') else None
            return da is not None and da == db
        if ka in ('id', 'app', 'lin') or kb in ('id', 'app', 'lin'):
            n = norm_cmp('eq', a, b)
            if n[0] == 'const':
                return n[1]
            return decide_rng(j.rng(n[1]), n[2], n[3]) is True
        return False

    def eq_eta(self, j, adt, t, obl, flip=False):
        vn = adt[2]
        r = j.rng(('app', 'discr', (t,)))
        st = adt[1]
        nvar = self.adt_variants(st)
        if nvar is None:
            return False
        if nvar[0] == 'enum':
            if vn not in nvar[1]:
                return False
            if decide_rng(r, 'eq', nvar[1][vn]) is not True:
                # all other variants excluded?
                for o, d in nvar[1].items():
                    if o != vn and decide_rng(r, 'eq', d) is not False:
                        return False
        for kk, x in adt[3]:
            y = ('app', 'fld', (t, vn if nvar[0] == 'enum' else '', kk))
            if not (self.equal(j, y, x, obl) if flip else self.equal(j, x, y, obl)):
                return False
        return True

    def adt_variants(self, name):
        c = getattr(self, '_adtv', None)
        if c is None:
            c = self._adtv = {}
            for p in self.cfg.progs:
                for aid, a in p.adts.items():
                    c.setdefault(p.adt_name(aid), (a['kind'], {v['name']: int(v['discr']) for v in a['variants']}))
        return c.get(name)

    # ---- evaluation ----------------------------------------------------
    def place(self, j, si, fr, p):
        sd = j.sides[si]
        prog = self.cfg.progs[si]
        addr, path = ('L', fr.uid, p[0]), ()
        vn = ''
        for e in p[1]:
            k = e[0]
            if k == 'd':
                addr, path = self.target(self.load(sd, addr, path))
                vn = ''
            elif k == 'f':
                nm = e[2]
                key = e[1] if (nm == '' or nm.isdigit()) else nm
                path = path + (('f', vn, key),)
                vn = ''
            elif k == 'v':
                vn = e[2]
            elif k == 'i':
                path = path + (('i', self.load(sd, ('L', fr.uid, e[1]), ())),)
            else:
                path = path + (tuple(e),)
        return addr, path

    def const(self, j, si, k):
        t = k['t']
        prog = self.cfg.progs[si]
        if t == 'int':
            self.consts.add(k['v'])
            return ('int', k['v'])
        if t == 'str':
            return ('str', k['v'])
        if t == 'unit':
            return UNIT
        if t == 'fn':
            c = self.fn_key(si, k)
            self.cfg.fn_const[si][c] = k
            return ('fn', c)
        if t == 'closure':
            return self.mkclo(si, k['id'], ())
        if t == 'variant':
            return ('adt', prog.adt_name(k['adt']), k['vname'], ())
        if t == 'zst' and 'adt' in k:
            return ('adt', prog.adt_name(k['adt']), '', ())
        if t == 'zst':
            return ('app', 'zst', (prog.ty(k['ty']),))
        if t == 'promoted':
            return self.promoted(j, si, k)
        if t == 'rtcheck':
            return ('int', 0)
        s = k.get('s', '')
        return ('app', 'const', (s if s.startswith(('b"', '"')) else prog.ty(s),))

    def fn_key(self, si, k):
        prog = self.cfg.progs[si]
        c = prog.callee(k)
        if 'trait' in k and k.get('self') and not k['trait'].split('::')[-1] in models.SELFLESS:
            c += '<' + prog.ty(k['self']) + '>'
        return c

    def mkclo(self, si, bid, caps):
        h = self.cfg.progs[si].body_hash(bid)
        self.cfg.clo_body[si].setdefault(h, bid)
        return ('clo', h, caps)

    def promoted(self, j, si, k):
        prog = self.cfg.progs[si]
        bid = k['of'] + '#p%d' % k['n']
        cache = self.__dict__.setdefault('_prom', {})
        if (si, bid) in cache:
            return cache[(si, bid)]
        b = prog.bodies.get(bid)
        if b is None:
            return ('app', 'promoted', (prog.ty(k['ty']),))
        tmp = Joint()
        tmp.uid = 1
        fr = Frame(bid, 1)
        tmp.sides[si].frames.append(fr)
        for _ in range(500):
            blk = b['blocks'][fr.bb]
            for s in blk['s']:
                self.stmt(tmp, si, fr, s)
            t = blk['t']
            if t[0] == 'goto':
                fr.bb = t[1]
            elif t[0] == 'return':
                break
            elif t[0] == 'assert':
                fr.bb = t[3]
            else:
                break
        v = self.snap(tmp.sides[si], self.load(tmp.sides[si], ('L', 1, 0), ()))
        cache[(si, bid)] = v
        return v

    def operand(self, j, si, fr, o):
        if o[0] == 'k':
            return self.const(j, si, o[1])
        a, p = self.place(j, si, fr, o[1])
        return self.load(j.sides[si], a, p)

    def rvalue(self, j, si, fr, r, lty=None):
        k = r[0]
        prog = self.cfg.progs[si]
        if k == 'use':
            return self.operand(j, si, fr, r[1])
        if k == 'ref':
            a, p = self.place(j, si, fr, r[2])
            return self.mkref(a, p)
        if k == 'bin':
            return self.binop(j, r[1], self.operand(j, si, fr, r[2]), self.operand(j, si, fr, r[3]))
        if k == 'un':
            v = self.operand(j, si, fr, r[2])
            if r[1] == 'Not':
                if v[0] in ('cmp', 'not'):
                    return bneg(v)
                if v[0] == 'int' and v[1] in (0, 1):
                    return ('int', 1 - v[1])
                return ('not', v)
            if r[1] == 'Neg' and v[0] == 'int':
                return ('int', -v[1])
            if r[1] == 'PtrMetadata':
                return models.length(self, j, j.sides[si], v)
            return ('app', r[1], (v,))
        if k == 'discr':
            a, p = self.place(j, si, fr, r[1])
            v = self.load(j.sides[si], a, p)
            return self.discr(si, v, r[2])
        if k == 'cast':
            v = self.operand(j, si, fr, r[2])
            ck = r[1]
            if ck.startswith('PointerCoercion') or ck in ('PtrToPtr', 'Subtype', 'FnPtrToPtr'):
                return v
            if ck.startswith('IntToInt'):
                if v[0] in ('int',):
                    return v
                if v[0] in ('cmp', 'not'):
                    return v
                ty = prog.ty(r[3])
                if ty in ('usize', 'u64', 'u128', 'i128', 'u32', 'i64') and (v[0] == 'id' and v[2] == 'u' and ty == 'usize'):
                    return v
                return ('app', 'cast', (ty, v))
            return ('app', 'cast' + ck.split('(')[0], (prog.ty(r[3]), v))
        if k == 'agg':
            ops = tuple(self.operand(j, si, fr, o) for o in r[2])
            if r[1] == 'tuple':
                return ('tup', ops)
            if r[1] == 'array':
                return ('arr', ops)
            if r[1] == 'closure':
                return self.mkclo(si, r[3], ops)
            if r[1] == 'adt':
                return self.mkadt(si, r[3], r[4], ops)
            return ('app', 'agg', ops)
        if k == 'repeat':
            return ('app', 'repeat', (self.operand(j, si, fr, r[1]), r[2]))
        if k == 'tls':
            return ('app', 'tls', (r[1],))
        return ('app', 'rv', (str(r[1])[:40],))

    def mkadt(self, si, aid, vidx, ops):
        prog = self.cfg.progs[si]
        a = prog.adts[aid]
        v = a['variants'][vidx]
        fs = []
        for i, x in enumerate(ops):
            nm = v['fields'][i][0] if i < len(v['fields']) else str(i)
            fs.append((i if nm.isdigit() else nm, x))
        return ('adt', prog.adt_name(aid), v['name'] if a['kind'] == 'enum' else '', tuple(fs))

    def discr(self, si, v, aid):
        prog = self.cfg.progs[si]
        if v[0] == 'adt':
            a = prog.adts.get(aid)
            if a:
                for x in a['variants']:
                    if x['name'] == v[2] or a['kind'] != 'enum':
                        return ('int', int(x['discr']))
            nv = self.adt_variants(v[1])
            if nv and v[2] in nv[1]:
                return ('int', nv[1][v[2]])
        return ('app', 'discr', (v,))

    def binop(self, j, op, a, b):
        a, b = j.pin(a) if a[0] in ('id', 'app', 'lin') else a, j.pin(b) if b[0] in ('id', 'app', 'lin') else b
        o = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}.get(op)
        if o:
            if a[0] in ('cmp', 'not') and b[0] in ('cmp', 'not') and o in ('eq', 'ne'):
                return ('app', 'bool' + o, (a, b))
            return mkcmp(o, a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        v = None
        if base == 'Add':
            if b[0] == 'int':
                v = add(a, b[1])
            elif a[0] == 'int':
                v = add(b, a[1])
            else:
                (ba, ca), (bb, cb) = split(a), split(b)
                x, y = sorted((ba, bb), key=repr)
                v = add(('app', 'Add', (x, y)), ca + cb)
        elif base == 'Sub':
            (ba, ca), (bb, cb) = split(a), split(b)
            if bb is None:
                v = add(a, -cb)
            elif ba == bb:
                v = ('int', ca - cb)
            elif ba is not None and ba[0] == 'app' and ba[1] == 'Add' and bb in ba[2]:
                o2 = ba[2][1] if ba[2][0] == bb else ba[2][0]
                v = add(o2, ca - cb)
            else:
                v = ('app', 'Sub', (a, b))
        elif base in ('BitAnd', 'BitOr', 'BitXor') and (a[0] in ('cmp', 'not') or b[0] in ('cmp', 'not')):
            da = decide(j, a) if a[0] in ('int', 'cmp', 'not') else None
            db = decide(j, b) if b[0] in ('int', 'cmp', 'not') else None
            if base == 'BitAnd':
                if da is False or db is False:
                    return ('int', 0)
                if da is True:
                    return b
                if db is True:
                    return a
            if base == 'BitOr':
                if da is True or db is True:
                    return ('int', 1)
                if da is False:
                    return b
                if db is False:
                    return a
            v = ('app', base, (a, b))
        elif a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                v = ('int', {'Mul': lambda: x * y, 'Div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), 'Rem': lambda: x % y,
                             'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                             'Shl': lambda: x << y, 'Shr': lambda: x >> y}[base]())
            except Exception:
                v = ('app', base, (a, b))
        else:
            if base in ('Mul', 'BitAnd', 'BitOr', 'BitXor') and repr(b) < repr(a):
                a, b = b, a
            v = ('app', base, (a, b))
        if 'WithOverflow' in op:
            return ('tup', (v, ('int', 0)))
        return v

    def stmt(self, j, si, fr, s):
        if s[0] == '=':
            v = self.rvalue(j, si, fr, s[2])
            a, p = self.place(j, si, fr, s[1])
            self.put(j.sides[si], a, p, v)
        elif s[0] == 'setdiscr':
            raise Inconclusive('SetDiscriminant')

    # ---- advancing one side to its next event --------------------------
    def advance(self, j0, si):
        """list of (joint, event)"""
        out = []
        work = [j0]
        steps = 0
        prog = self.cfg.progs[si]
        while work:
            j = work.pop()
            sd = j.sides[si]
            while True:
                steps += 1
                self.nsteps += 1
                if not self.nsteps & 255 and time.time() - self.born > self.cfg.max_seconds:
                    raise Inconclusive('not finished within %d s' % self.cfg.max_seconds)
                if steps > self.cfg.max_steps:
                    raise Inconclusive('no event reached within %d steps (loop without observable event) in %s'
                                       % (self.cfg.max_steps, sd.frames[-1].body))
                fr = sd.frames[-1]
                b = prog.bodies[fr.body]
                blk = b['blocks'][fr.bb]
                for s in blk['s']:
                    if s[0] == '=':
                        v = self.rvalue(j, si, fr, s[2])
                        p = s[1]
                        if p[1]:
                            a, pth = self.place(j, si, fr, p)
                            self.put(sd, a, pth, v)
                        else:
                            sd.store[('L', fr.uid, p[0])] = v
                    elif s[0] == 'setdiscr':
                        raise Inconclusive('SetDiscriminant')
                t = blk['t']
                k = t[0]
                if k == 'goto':
                    fr.bb = t[1]
                elif k == 'drop':
                    fr.bb = t[2]
                elif k == 'assert':
                    c = self.operand(j, si, fr, t[1])
                    d = decide(j, c)
                    want = bool(t[2])
                    if d is not None and d != want:
                        out.append((j, Event('panic', 'panic', span=t[5])))
                        break
                    if d is None and t[4] not in ('Overflow', 'OverflowNeg', 'BoundsCheck') and not t[4].startswith(('Overflow', 'Bounds', 'Division', 'Remainder')):
                        assume(j, c, want)
                    fr.bb = t[3]
                elif k == 'switch':
                    v = self.operand(j, si, fr, t[1])
                    if v[0] in ('id', 'app', 'lin'):
                        v = j.pin(v)
                    done = False
                    for val, bb in t[2]:
                        c = mkcmp('eq', v, ('int', val))
                        d = decide(j, c)
                        if d is True:
                            fr.bb = bb
                            done = True
                            break
                        if d is False:
                            continue
                        if b['blocks'][bb]['t'][0] != 'unreachable' or b['blocks'][bb]['s']:
                            j2 = j.copy()
                            if assume(j2, c, True):
                                j2.sides[si].frames[-1].bb = bb
                                work.append(j2)
                        if not assume(j, c, False):
                            done = None
                            break
                    if done is None:
                        break
                    if not done:
                        ob = t[3]
                        if b['blocks'][ob]['t'][0] == 'unreachable' and not b['blocks'][ob]['s']:
                            break
                        fr.bb = ob
                elif k == 'return':
                    v = self.load(sd, ('L', fr.uid, 0), ())
                    if b['locals'][0] == '()':
                        v = UNIT
                    if len(sd.frames) == 1:
                        ev = Event('ret', 'return', (self.snap(sd, v),), span=b['span'])
                        out.append((j, ev))
                        break
                    sd.frames.pop()
                    up = sd.frames[-1]
                    if fr.hook:
                        v = ('adt', fr.hook[0], fr.hook[1], ((0, v),))
                    self.put(sd, fr.ret[0], fr.ret[1], v)
                    if fr.retbb is None:
                        break
                    up.bb = fr.retbb
                    self.sweep(sd, fr.uid)
                elif k == 'unreachable' or k == 'resume':
                    break
                elif k == 'call':
                    r = self.call(j, si, fr, t)
                    if r is None:
                        continue
                    if isinstance(r, Event):
                        out.append((j, r))
                        break
                    if r == 'dead':
                        break
                    # list of forks
                    work.extend(r)
                    break
                else:
                    raise Inconclusive('terminator ' + str(t)[:80])
        return out

    def sweep(self, sd, uid):
        """drop locals of a returned frame unless something still points to them"""
        dead = [a for a in sd.store if a[0] == 'L' and a[1] == uid]
        if not dead:
            return
        live = set()
        for a, v in sd.store.items():
            if a[0] == 'L' and a[1] == uid:
                continue
            self.refs(v, live)
        work = [a for a in live if a[0] == 'L' and a[1] == uid]
        keep = set(work)
        while work:
            a = work.pop()
            s = set()
            if a in sd.store:
                self.refs(sd.store[a], s)
            for x in s:
                if x[0] == 'L' and x[1] == uid and x not in keep:
                    keep.add(x)
                    work.append(x)
        for a in dead:
            if a not in keep:
                del sd.store[a]

    def refs(self, v, out):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'ref' and len(v) == 3:
            out.add(v[1])
            self.refs(v[2], out)
            return
        if v[0] in ('id', 'int', 'str'):
            out.add(('O', v))
            return
        if v[0] == 'app':
            out.add(('O', v))
        for x in v:
            if isinstance(x, tuple):
                self.refs(x, out)

    # ---- calls ---------------------------------------------------------
    def ret_to(self, j, si, fr, t, v):
        sd = j.sides[si]
        a, p = self.place(j, si, fr, t[3])
        self.put(sd, a, p, v)
        if t[4] is None:
            return 'dead'
        fr.bb = t[4]
        return None

    def push_frame(self, j, si, fr, t, bid, args):
        sd = j.sides[si]
        prog = self.cfg.progs[si]
        b = prog.bodies[bid]
        self.bodies_seen[si].add(bid)
        if len(sd.frames) > 60:
            raise Inconclusive('call depth in ' + bid)
        j.uid += 1
        f = Frame(bid, j.uid, self.place(j, si, fr, t[3]), t[4])
        for i, a in enumerate(args):
            sd.store[('L', f.uid, i + 1)] = a
        sd.frames.append(f)
        return None

    def strip_refs(self, sd, v):
        n = 0
        while n < 10:
            if v[0] == 'ref':
                v = self.load(sd, v[1], v[2])
            elif v[0] == '&':
                v = v[1]
            elif v[0] in ('app', 'id') and ('O', v) in sd.store:
                v = sd.store[('O', v)]
            elif v[0] == 'app' and v[1] == 'deref' and v[2][0][0] in ('&',):
                v = v[2][0][1]
            elif v[0] == 'app' and v[1] == 'Box::new':
                v = v[2][0]
            else:
                break
            n += 1
        return v

    def call(self, j, si, fr, t):
        sd = j.sides[si]
        f = t[1]
        args = [self.operand(j, si, fr, o) for o in t[2]]
        if f[0] == 'k' and f[1]['t'] == 'fn':
            return self.call_const(j, si, fr, t, f[1], args)
        fv = self.operand(j, si, fr, f)
        return self.call_value(j, si, fr, t, fv, args)

    def call_value(self, j, si, fr, t, fv, args):
        sd = j.sides[si]
        v = self.strip_refs(sd, fv)
        if v[0] == 'clo':
            bid = self.cfg.clo_body[si].get(v[1])
            if bid is None or bid not in self.cfg.progs[si].bodies:
                raise Inconclusive('closure body missing')
            b = self.cfg.progs[si].bodies[bid]
            selfty = b['locals'][1]
            if selfty.startswith('&'):
                if fv[0] == 'ref' and self.load(sd, fv[1], fv[2])[0] == 'clo':
                    a0 = fv
                elif fv[0] == '&' and fv[1] == v:
                    a0 = fv
                else:
                    # find innermost reference to the closure value, or make a copy
                    x = fv
                    a0 = None
                    while x[0] == 'ref':
                        y = self.load(sd, x[1], x[2])
                        if y == v:
                            a0 = x
                            break
                        x = y
                    if a0 is None:
                        j.uid += 1
                        addr = ('L', j.uid, 0)
                        sd.store[addr] = v
                        a0 = ('ref', addr, ())
            else:
                a0 = v
            return self.push_frame(j, si, fr, t, bid, [a0] + list(args))
        if v[0] == 'fn':
            k = self.cfg.fn_const[si].get(v[1])
            if k is not None:
                return self.call_const(j, si, fr, t, k, args)
        return self.event(j, si, fr, t, 'param', self.snap(sd, v), args)

    def call_const(self, j, si, fr, t, k, args):
        sd = j.sides[si]
        prog = self.cfg.progs[si]
        canon = prog.callee(k)
        if 'ctor' in k:
            aid, vi, _ = k['ctor']
            return self.ret_to(j, si, fr, t, self.mkadt(si, aid, vi, args))
        tr = k.get('trait')
        if tr is not None:
            trn = tr.split('::')[-1]
            if trn in ('Fn', 'FnMut', 'FnOnce', 'AsyncFn') and len(args) == 2:
                a = args[1]
                xs = list(a[1]) if a[0] == 'tup' else None
                if xs is None:
                    n = self.tuple_arity(t, si)
                    xs = [self.project(a, ('f', '', i)) for i in range(n)]
                return self.call_value(j, si, fr, t, args[0], xs)
        cl = self.cfg.classify(si, k, canon)
        if cl is not None:
            kind, name = cl
            if kind == 'ignore':
                return self.ret_to(j, si, fr, t, UNIT)
            if kind == 'print':
                sd.out = sd.out + models.printed(self.snap(sd, args[0]))
                return self.ret_to(j, si, fr, t, UNIT)
            if kind == 'mark':
                d = self.err_delta(si, sd, args[0])
                if not d:
                    sd.marks = sd.marks + ((self.snap(sd, args[1]), self.norm_mark(self.snap(sd, args[2]))),)
                v = UNIT if self.cfg.progs[si].ty(t[6]) == '()' else ('adt', 'RuleResult', 'Failed', ())
                return self.ret_to(j, si, fr, t, v)
            if kind == 'pure':
                return self.ret_to(j, si, fr, t, self.pure(j, si, t, name, args))
            if kind == 'inline':
                return self.push_frame(j, si, fr, t, name, args)
            return self.event(j, si, fr, t, kind, name, args)
        m = models.lookup(canon, k, prog, t)
        if m is not None:
            r = m(self, j, si, fr, t, k, args)
            if r is not NotImplemented:
                return r
        bid = k.get('res') or k['id']
        if bid not in prog.bodies:
            bid = k['id'] if (k['id'] in prog.bodies and 'trait' not in k) else None
        if bid is not None and k.get('reskind', 'Item') in ('Item', 'CloneShim', ''):
            if any(f.body == bid for f in sd.frames):
                return self.event(j, si, fr, t, 'rec', 'rec', args, callee=bid)
            return self.push_frame(j, si, fr, t, bid, args)
        # closure call shims resolved statically
        if t[4] is None:
            return Event('panic', 'panic', span=t[7], raw=t[8])
        self.unmodelled.add(canon)
        self.no_model(si, canon, args)
        muts = [i for i, ty in enumerate(t[5]) if ty.startswith('&mut') or ty.startswith("&'") and ' mut ' in ty[:16]]
        name = self.fn_key(si, k)
        if muts:
            return self.event(j, si, fr, t, 'ext', name, args)
        return self.ret_to(j, si, fr, t, self.pure(j, si, t, name, args))

    def no_model(self, si, canon, args):
        """called before a library function without a model is taken as an unknown function of its arguments"""

    def tuple_arity(self, t, si):
        ty = t[5][1]
        n, d, cur = 0, 0, ''
        for c in ty[1:-1]:
            if c in '(<[':
                d += 1
            elif c in ')>]':
                d -= 1
            if c == ',' and d == 0:
                if cur.strip():
                    n += 1
                cur = ''
            else:
                cur += c
        if cur.strip():
            n += 1
        return n

    def norm_mark(self, v):
        if v[0] == 'str':
            return ('str', re.sub(r'\s+', '', v[1]))
        return v

    def pure(self, j, si, t, name, args):
        sd = j.sides[si]
        if self.cfg.progs[si].ty(t[6]) == '()':
            return UNIT
        v = ('app', name, tuple(self.snap(sd, a) for a in args))
        return v

    # error state bookkeeping
    def err_obj(self, sd, v):
        a, p = self.target(v)
        return self.load(sd, a, p)

    def err_fields(self, obj):
        """(base, {field: value}) of an error-state object"""
        if obj[0] == 'upd':
            return obj[1], {k[1]: x for k, x in obj[2]}
        if obj[0] == 'adt':
            return None, dict(obj[3])
        return obj, {}

    def poslike(self, f):
        return isinstance(f, str) and re.search(r'pos|max|loc|far|offset', f) is not None

    def err_delta(self, si, sd, v):
        base, fs = self.err_fields(self.err_obj(sd, v))
        d = 0
        for f, x in fs.items():
            if self.poslike(f):
                continue
            b, c = split(x)
            if b is None:
                if f == 'reparsing_on_error':
                    continue
                d += c
            elif base is not None and b == fld(base, '', f):
                d += c
        return d

    def is_err(self, si, sd, v, ty):
        if v == ERR:
            return True
        if v[0] in ('ref',):
            x = self.load(sd, v[1], v[2])
            if x == ERR:
                return True
            if x[0] == 'adt' and x[1].endswith('ErrorState'):
                return True
        if v[0] == '&' and v[1] == ERR:
            return True
        return ty is not None and 'ErrorState' in ty and 'closure' not in ty and 'Fn(' not in ty and ty.lstrip("&'abcdefghijklmnopqrstuvwxyz ").startswith(('peg', 'ErrorState', 'refrt', 'error::')) and False

    def is_state(self, si, sd, v, ty):
        if v == STATE:
            return True
        if v[0] == 'ref':
            x = self.load(sd, v[1], v[2])
            if x == STATE:
                return True
            if x[0] == 'adt' and x[1].split('::')[-1] in self.cfg.state_names[si]:
                return True
        return v[0] == '&' and v[1] == STATE

    def event(self, j, si, fr, t, kind, name, args, callee=None):
        sd = j.sides[si]
        a = []
        err = state = None
        muts = []
        tys = t[5] if len(t[5]) == len(args) else [None] * len(args)
        for i, v in enumerate(args):
            if self.is_err(si, sd, v, tys[i]):
                err = self.derr(sd, v)
                continue
            if self.is_state(si, sd, v, tys[i]):
                state = self.derr(sd, v)
                continue
            a.append(self.snap(sd, v))
            if kind in ('ext', 'user', 'param') and tys[i] is not None and (tys[i].startswith('&mut') or re.match(r"&'\w+ mut ", tys[i])):
                muts.append((len(a) - 1,) + self.target(v))
        if kind == 'query':
            ks = (name, tuple(a))
            if ks in j.memo:
                r = j.memo[ks]
                return self.ret_to(j, si, fr, t, r)
        e = Event(kind, name, tuple(a), self.place(j, si, fr, t[3]), t[4], self.cfg.progs[si].ty(t[6]), t[7], t[8], muts, err, state)
        e.callee = (callee, list(args)) if callee else None
        return e

    def derr(self, sd, v):
        """innermost place of the object behind possibly several references"""
        a, p = self.target(v)
        for _ in range(5):
            x = self.load(sd, a, p)
            if x[0] == 'ref':
                a, p = x[1], x[2]
            elif x == ERR or x == STATE:
                return ('O', x), ()
            else:
                break
        return a, p

    # ---- joint exploration ----------------------------------------------
    def run(self, j0, label):
        work = [j0]
        self.label = label
        while work:
            j = work.pop()
            for j1, ea in self.advance(j, 0):
                for j2, eb in self.advance(j1, 1):
                    for j3 in self.step(j2, ea, eb):
                        self.widen(j3)
                        key = self.canon(j3)
                        if key in self.visited:
                            continue
                        self.visited.add(key)
                        self.nstates += 1
                        if self.nstates > self.cfg.max_states:
                            raise Inconclusive('more than %d abstract states' % self.cfg.max_states)
                        work.append(j3)

    def fail(self, j, msg, ea, eb):
        e = Mismatch(msg)
        e.ea, e.eb, e.trail = ea, eb, j.trail
        raise e

    def cmp_marks(self, j, ea, eb):
        ma, mb = j.sides[0].marks, j.sides[1].marks
        if ma == mb:
            j.sides[0].marks = j.sides[1].marks = ()
            return
        la, lb = list(dict.fromkeys(ma)), list(dict.fromkeys(mb))

        def sub(xs, ys):
            return [x for x in xs if not any(self.equal(j, x[0], y[0]) and self.equal(j, x[1], y[1]) for y in ys)]
        extra, missing = sub(la, lb), sub(lb, la)
        if extra:
            self.fail(j, 'records a failure that must not be recorded here: %s at %s' % (show(extra[0][1]), show(extra[0][0])), ea, eb)
        if missing:
            self.fail(j, 'does not record the failure %s at %s' % (show(missing[0][1]), show(missing[0][0])), ea, eb)
        j.sides[0].marks = j.sides[1].marks = ()

    def cmp_out(self, j, ea, eb):
        oa, ob = j.sides[0].out, j.sides[1].out
        j.sides[0].out = j.sides[1].out = ()
        if oa == ob:
            return
        la, lb = models.lines(oa), models.lines(ob)

        def sh(x):
            return ''.join(p[1] if p[0] == 'txt' else '{%s}' % show(p[1]) for p in x)
        for x, y in zip(la + [()] * len(lb), lb + [()] * len(la)):
            if len(x) != len(y) or not all(p[0] == q[0] and (p[1] == q[1] if p[0] == 'txt' else self.equal(j, p[1], q[1])) for p, q in zip(x, y)):
                self.fail(j, 'prints %s where %s must be printed' % ('`%s`' % sh(x) if x else 'nothing', '`%s`' % sh(y) if y else 'nothing'), ea, eb)

    def cache_key(self, f):
        return self.cfg.cache_map.get(f, f)

    def state_fields(self, obj, si):
        if obj[0] == 'upd':
            d = {k[1]: x for k, x in obj[2]}
        elif obj[0] == 'adt':
            d = {k: x for k, x in obj[3] if isinstance(k, str) and k.endswith('_cache') or x[0] == 'app' and x[1] in ('mapnew', 'mapstore')}
        else:
            d = {}
        if si == 0:
            d = {self.cache_key(k): x for k, x in d.items()}
        return d

    def cmp_state(self, j, ea, eb, pa, pb):
        oa = self.load(j.sides[0], *pa)
        ob = self.load(j.sides[1], *pb)
        da, db = self.state_fields(oa, 0), self.state_fields(ob, 1)
        for k in sorted(set(da) | set(db), key=str):
            x, y = da.get(k), db.get(k)
            if x is None and oa[0] == 'upd':
                x = ('app', 'fld', (oa[1], '', k))
            elif x is None and oa[0] in ('id', 'app'):
                x = ('app', 'fld', (oa, '', k))
            if y is None and ob[0] == 'upd':
                y = ('app', 'fld', (ob[1], '', k))
            elif y is None and ob[0] in ('id', 'app'):
                y = ('app', 'fld', (ob, '', k))
            if x is None or y is None:
                if y is None:
                    continue
                self.fail(j, 'memo table %s missing' % k, ea, eb)
            if not self.equal(j, x, y):
                self.fail(j, 'memo table %s differs: %s, expected %s' % (k, show(x), show(y)), ea, eb)

    def cmp_err(self, j, ea, eb, pa, pb, at_return=False):
        oa = self.load(j.sides[0], *pa)
        ob = self.load(j.sides[1], *pb)
        ba, da = self.err_fields(oa)
        bb, db = self.err_fields(ob)
        sa = self.err_delta(0, j.sides[0], self.mkref(*pa))
        sb = self.err_delta(1, j.sides[1], self.mkref(*pb))
        if at_return:
            if sa != 0 and sb == 0:
                self.fail(j, 'returns with the suppression depth changed by %+d' % sa, ea, eb)
        elif (sa > 0) != (sb > 0):
            self.fail(j, 'failures are %ssuppressed here, but must %sbe' % ('' if sa > 0 else 'not ', '' if sb > 0 else 'not '), ea, eb)
        elif sa < 0:
            self.fail(j, 'suppression depth below its value at entry', ea, eb)
        # every other field
        for f in sorted(set(da) | set(db), key=str):
            x = da.get(f) or (fld(ba, '', f) if ba is not None else None)
            y = db.get(f) or (fld(bb, '', f) if bb is not None else None)
            if x is None or y is None:
                continue
            if not self.poslike(f) and split(x)[0] is not None and ba is not None and split(x)[0] == fld(ba, '', f):
                continue
            if f == 'suppress_fail':
                continue
            if not self.equal(j, x, y):
                self.fail(j, 'error-recording state `%s` is %s, must be %s' % (f, show(x), show(y)), ea, eb)

    def step(self, j, ea, eb):
        self.nevents += 1
        if eb.kind == 'panic' and ea.kind == 'panic':
            return []
        if ea.kind != eb.kind or (ea.kind not in ('ret', 'rec') and not self.same_name(j, ea, eb)):
            # marks made before are part of the explanation
            self.cmp_marks_soft = None
            self.fail(j, 'does `%s` where `%s` is required' % (ea.show(), eb.show()), ea, eb)
        self.cmp_marks(j, ea, eb)
        self.cmp_out(j, ea, eb)
        obl = []
        if ea.kind == 'ret':
            if not self.equal(j, ea.args[0], eb.args[0], obl):
                self.fail(j, 'returns %s where %s is required' % (show(ea.args[0]), show(eb.args[0])), ea, eb)
            self.cmp_err(j, ea, eb, (('O', ERR), ()), (('O', ERR), ()), True)
            self.cmp_state(j, ea, eb, (('O', STATE), ()), (('O', STATE), ()))
            self.add_obl(obl)
            return []
        if (ea.err is None) != (eb.err is None):
            self.fail(j, 'error state is %spassed to %s' % ('not ' if ea.err is None else '', ea.show()), ea, eb)
        if ea.err is not None:
            self.cmp_err(j, ea, eb, ea.err, eb.err)
        if ea.state is not None and eb.state is not None:
            self.cmp_state(j, ea, eb, ea.state, eb.state)
        if ea.kind == 'rec':
            ok = self.rec_sig(ea) == self.rec_sig(eb)
            if not ok:
                self.fail(j, 'recurses with %s where %s is required' % (self.rec_show(ea), self.rec_show(eb)), ea, eb)
            self.add_rec(j, ea, eb)
        else:
            if len(ea.args) != len(eb.args):
                self.fail(j, 'passes %d arguments to %s where %d are required' % (len(ea.args), ea.name, len(eb.args)), ea, eb)
            for i, (x, y) in enumerate(zip(ea.args, eb.args)):
                if not self.equal(j, x, y, obl):
                    self.fail(j, 'argument %d of %s is %s, must be %s' % (i + 1, ea.show().split('(')[0], show(x), show(y)), ea, eb)
        self.add_obl(obl)
        j.trail = j.trail + (eb.show(),)
        # effects
        for i, a, p in ea.muts:
            for i2, a2, p2 in eb.muts:
                if i2 == i:
                    n = j.fresh()
                    self.put(j.sides[0], a, p, n)
                    self.put(j.sides[1], a2, p2, n)
        self.havoc(j, ea, eb)
        if ea.kind != 'query':
            j.memo = {}
        return self.results(j, ea, eb)

    def same_name(self, j, ea, eb):
        if ea.kind == 'param':
            return self.equal(j, ea.name, eb.name)
        return ea.name == eb.name

    def rec_sig(self, e):
        r = []
        for a in e.args:
            b, c = split(a)
            if b is None:
                r.append(a)
            elif b[0] in ('id', 'app') and a != INPUT and not (b[0] == 'app' and b[1] in ('zst',)):
                r.append(a)
        return sorted(r, key=repr)

    def rec_show(self, e):
        return '(%s)' % ', '.join(show(x) for x in self.rec_sig(e))

    def add_rec(self, j, ea, eb):
        sa = [self.snap(j.sides[0], x) for x in ea.callee[1]]
        sb = [self.snap(j.sides[1], x) for x in eb.callee[1]]
        self.queue_obl(('rec', ea.callee[0], tuple(sa), eb.callee[0], tuple(sb)))

    def add_obl(self, obl):
        for a, b in obl:
            self.queue_obl(('clo', a, b))

    def queue_obl(self, o):
        key = repr(self.rename_value(o, {}))
        if key in self.obl_seen:
            return
        self.obl_seen.add(key)
        self.obligations.append(o)

    def rename_value(self, v, m):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'id':
                if v[1] < 0:
                    return v
                if v not in m:
                    m[v] = ('id', len(m), v[2])
                return m[v]
            return tuple(self.rename_value(x, m) for x in v)
        return v

    def havoc(self, j, ea, eb):
        if ea.state is not None and eb.state is not None:
            n = j.fresh()
            for si, e in ((0, ea), (1, eb)):
                o = self.load(j.sides[si], *e.state)
                if o[0] == 'adt':
                    fs = []
                    for k, x in o[3]:
                        if x[0] == 'app' and x[1] in ('mapnew', 'mapstore', 'fld'):
                            kk = self.cache_key(k) if si == 0 else k
                            x = ('app', 'fld', (n, '', kk))
                        fs.append((k, x))
                    self.put(j.sides[si], e.state[0], e.state[1], ('adt', o[1], o[2], tuple(fs)))
                else:
                    self.put(j.sides[si], e.state[0], e.state[1], n)
        if ea.err is not None and eb.err is not None:
            n = j.fresh()
            for si, e in ((0, ea), (1, eb)):
                o = self.load(j.sides[si], *e.err)
                if o[0] == 'adt':
                    fs = []
                    for k, x in o[3]:
                        if x[0] == 'int' and not self.poslike(k):
                            fs.append((k, x))
                        else:
                            fs.append((k, fld(n, '', k)))
                    v = ('adt', o[1], o[2], tuple(fs))
                else:
                    base, d = self.err_fields(o)
                    nd = {}
                    for f, x in d.items():
                        b, c = split(x)
                        if b == fld(base, '', f) and not self.poslike(f):
                            nd[('', f)] = add(fld(n, '', f), c)
                        elif b is None:
                            nd[('', f)] = x
                    v = ('upd', n, tuple(sorted(nd.items(), key=repr))) if nd else n
                self.put(j.sides[si], e.err[0], e.err[1], v)

    def result_type(self, ea, eb):
        return ea.dty, eb.dty

    def opaque(self, j, ty):
        if ty == '()':
            return UNIT
        return j.fresh('u' if ty == 'usize' else '')

    def results(self, j, ea, eb):
        ta, tb = ea.dty, eb.dty
        if ea.target is None or eb.target is None:
            if (ea.target is None) != (eb.target is None):
                self.fail(j, 'diverges', ea, eb)
            return []
        ra, rb = re.match(r'^(?:\w+::)*RuleResult<(.*)>$', ta), re.match(r'^(?:\w+::)*RuleResult<(.*)>$', tb)
        out = []
        if ra or rb:
            ia = ra.group(1) if ra else rb.group(1)
            ib = rb.group(1) if rb else ia
            for matched in (True, False):
                j2 = j.copy()
                if matched:
                    pos = j2.fresh('u')
                    if ia == '()' or ib == '()':
                        val = UNIT
                    else:
                        val = self.opaque(j2, ib)
                    v = ('adt', 'RuleResult', 'Matched', ((0, pos), (1, val)))
                else:
                    v = ('adt', 'RuleResult', 'Failed', ())
                self.finish(j2, ea, eb, v)
                j2.trail = j2.trail[:-1] + (j2.trail[-1] + (' matches' if matched else ' fails'),)
                out.append(j2)
            return out
        v = self.opaque(j, tb)
        self.finish(j, ea, eb, v)
        return [j]

    def finish(self, j, ea, eb, v):
        if ea.kind == 'query':
            j.memo[(ea.name, ea.args)] = v
            j.memo[(eb.name, eb.args)] = v
            if len(j.memo) > 4:
                for kk in list(j.memo)[:-4]:
                    del j.memo[kk]
        for si, e in ((0, ea), (1, eb)):
            sd = j.sides[si]
            self.put(sd, e.dest[0], e.dest[1], v)
            sd.frames[-1].bb = e.target

    # ---- widening and canonical form -------------------------------------
    def widen(self, j):
        T = self.cfg.threshold
        m = {}
        hit = [False]

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k == 'app' and isinstance(v[2], tuple) and v[1] not in KEEP_DEEP and depth(v) > 3:
                # a chain of the same function applied to its own result: forget how it was obtained
                if v not in m:
                    m[v] = j.fresh('u' if is_unsigned(v) else '')
                return m[v]
            if k == 'int':
                if v[1] == T + 1:
                    hit[0] = True
                    return wid(v)
                return v
            if k == 'vec' and v[2][0] == 'int' and v[2][1] > T:
                hit[0] = True
                return ('vec', walk(v[1]), wid(v[2]))
            if k == 'lin' and v[2][0] == 'id' and v[2][2] == 'w':
                hit[0] = True
                return wid(v)
            if k in ('id', 'str', 'undef'):
                return v
            if not contains(v):
                return v
            return tuple(walk(x) for x in v)

        memo = {}
        depths = {}

        def depth(v):
            # how often the function of `v` is applied to (a result of) itself
            r = depths.get(v)
            if r is None:
                r = depths[v] = 1 + max([0] + [inner(x, v[1]) for x in v[2] if isinstance(x, tuple)])
            return r

        def inner(v, name):
            if not v:
                return 0
            if v[0] == 'app' and v[1] == name and isinstance(v[2], tuple):
                return depth(v)
            return max([0] + [inner(x, name) for x in v if isinstance(x, tuple)])

        def contains(v):
            r = memo.get(v)
            if r is None:
                r = False
                if v and v[0] == 'app' and isinstance(v[2], tuple) and v[1] not in KEEP_DEEP and depth(v) > 3:
                    r = True
                elif v and v[0] == 'int':
                    r = v[1] == T + 1
                elif v and v[0] == 'lin' and v[2][0] == 'id' and v[2][2] == 'w':
                    r = True
                elif v and v[0] == 'vec' and v[2][0] == 'int' and v[2][1] > T:
                    r = True
                else:
                    for x in v:
                        if isinstance(x, tuple) and contains(x):
                            r = True
                            break
                memo[v] = r
            return r

        def wid(v):
            if v not in m:
                n = j.fresh('w')
                j.facts[n] = (T + 1, None, frozenset())
                m[v] = n
            return m[v]
        for sd in j.sides:
            for a, v in list(sd.store.items()):
                if isinstance(v, tuple) and contains(v):
                    sd.store[a] = walk(v)

    def live_roots(self, sd, si):
        prog = self.cfg.progs[si]
        roots = []
        n = len(sd.frames)
        for idx, fr in enumerate(sd.frames):
            an = prog.analysis(fr.body)
            if idx == n - 1:
                live = an.live_in[fr.bb]
            else:
                nx = sd.frames[idx + 1]
                live = an.live_in[nx.retbb] if nx.retbb is not None else frozenset()
                if nx.ret[0] == ('L', fr.uid, nx.ret[0][2] if nx.ret[0][0] == 'L' else None) and not nx.ret[1]:
                    live = live - {nx.ret[0][2]}
            for l in sorted(live):
                roots.append(('L', fr.uid, l))
        roots.append(('O', ERR))
        roots.append(('O', STATE))
        return roots

    def canon(self, j):
        m = {}
        um = {}
        allids = set()
        parts = []

        def rn(v):
            if isinstance(v, tuple):
                n = len(v)
                if n == 3 and v[0] == 'id':
                    if v[1] < 0:
                        return v
                    x = m.get(v)
                    if x is None:
                        x = m[v] = ('id', len(m), v[2])
                    return x
                if n == 3 and v[0] == 'L':
                    u = um.get(v[1])
                    if u is None:
                        u = um[v[1]] = len(um)
                    return ('L', u, v[2])
                return tuple([rn(x) for x in v])
            return v
        for si in (0, 1):
            sd = j.sides[si]
            um.clear()
            fp = []
            for fr in sd.frames:
                um[fr.uid] = len(um)
            for fr in sd.frames:
                fp.append((fr.body, fr.bb, rn(fr.ret) if fr.ret else None, fr.retbb, fr.hook))
            parts.append(tuple(fp))
            roots = self.live_roots(sd, si)
            seen = set()
            order = []
            st = list(reversed(roots))
            while st:
                a = st.pop()
                if a in seen:
                    continue
                seen.add(a)
                if a not in sd.store:
                    continue
                order.append(a)
                out = set()
                self.refs(sd.store[a], out)
                for x in sorted(out, key=repr):
                    if x not in seen:
                        st.append(x)
            # garbage collect
            if len(order) != len(sd.store):
                keep = set(order)
                for a in [a for a in sd.store if a not in keep]:
                    del sd.store[a]
            parts.append(tuple((rn(a), rn(sd.store[a])) for a in order))
            parts.append(rn(sd.marks))
            parts.append(rn(sd.out))
        # facts about live names only
        fs = []
        dead = []
        for t, r in j.facts.items():
            s = set()
            ids_in(t, s)
            if all(x in m or x[1] < 0 for x in s):
                tt = rn(t)
                rr = r
                if tt[0] == '-' and repr(tt[1]) > repr(tt[2]):
                    tt = ('-', tt[2], tt[1])
                    rr = (None if r[1] is None else -r[1], None if r[0] is None else -r[0], frozenset(-e for e in r[2]))
                fs.append((tt, (rr[0], rr[1], tuple(sorted(rr[2])))))
            else:
                dead.append(t)
        for t in dead:
            del j.facts[t]
        fs.sort(key=repr)
        al = []
        for t in list(j.alias):
            s = set()
            ids_in(t, s)
            if all(x in m or x[1] < 0 for x in s) and j.alias[t] in m:
                al.append((rn(t), rn(j.alias[t])))
            else:
                del j.alias[t]
        al.sort(key=repr)
        mm = []
        for t in list(j.memo):
            s = set()
            ids_in(t, s)
            ids_in(j.memo[t], s)
            if all(x in m or x[1] < 0 for x in s):
                mm.append((rn(t), rn(j.memo[t])))
            else:
                del j.memo[t]
        mm.sort(key=repr)
        return hash((tuple(parts), tuple(fs), tuple(al), tuple(mm)))
