"""Transfer functions of library operations (everything else is a pure, uninterpreted operation or,
when it takes a `&mut`, an opaque event)."""
import ast
import re

UNIT = ('tup', ())
# traits whose method identity does not depend on the Self type for our purposes
SELFLESS = {'Clone', 'Deref', 'Fn', 'FnMut', 'FnOnce', 'Parse', 'ParseElem', 'ParseLiteral', 'ParseSlice', 'IntoIterator',
            'Iterator', 'From', 'Into', 'PartialEq', 'PartialOrd', 'AsRef', 'Borrow', 'ToOwned', 'Display', 'Debug', 'Index', 'Default'}


def length(eng, j, sd, v):
    """length of the container a reference points to"""
    if v[0] == 'ref':
        x = eng.load(sd, v[1], v[2])
    elif v[0] == '&':
        x = v[1]
    elif ('O', v) in sd.store:
        x = sd.store[('O', v)]
    else:
        x = ('app', 'deref', (v,))
    if x[0] == 'vec':
        return j.pin(x[2])
    if x[0] == 'arr':
        return ('int', len(x[1]))
    if x[0] == 'str':
        return ('int', len(x[1].encode()))
    if x[0] == 'app' and x[1] == 'deref' and x[2][0][0] == 'str':
        return ('int', len(x[2][0][1].encode()))
    return j.pin(('app', 'len', (x,)))


def lookup(canon, k, prog, t):
    m = TABLE.get(canon)
    if m is not None:
        return m
    return None


TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


@model('vec::Vec::new', 'vec::Vec::with_capacity')
def vec_new(e, j, si, fr, t, k, a):
    return e.ret_to(j, si, fr, t, ('vec', ('nil',), ('int', 0)))


@model('vec::Vec::push')
def vec_push(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p = e.target(a[0])
    v = e.load(sd, addr, p)
    if v[0] != 'vec':
        v = ('vec', v, ('app', 'len', (v,)))
    x = e.snap(sd, a[1])
    content = ('push', v[1], x)
    i = j.alias.get(content)
    if i is None:
        i = j.fresh('v')
        j.alias[content] = i
    from .engine import add
    e.put(sd, addr, p, ('vec', i, add(v[2], 1)))
    return e.ret_to(j, si, fr, t, UNIT)


@model('vec::Vec::len', 'slice::len', 'str::len', 'str::<impl str>::len', 'slice::<impl [T]>::len', 'string::String::len')
def vec_len(e, j, si, fr, t, k, a):
    return e.ret_to(j, si, fr, t, length(e, j, j.sides[si], a[0]))


@model('vec::Vec::is_empty', 'str::<impl str>::is_empty', 'slice::<impl [T]>::is_empty')
def vec_is_empty(e, j, si, fr, t, k, a):
    from .engine import mkcmp
    return e.ret_to(j, si, fr, t, mkcmp('eq', length(e, j, j.sides[si], a[0]), ('int', 0)))


@model('collections::HashMap::new', 'collections::BTreeMap::new', 'collections::HashMap::with_capacity', 'collections::hash_map::HashMap::new')
def map_new(e, j, si, fr, t, k, a):
    return e.ret_to(j, si, fr, t, ('app', 'mapnew', ()))


def map_at(e, sd, r):
    addr, p = e.target(r)
    return addr, p, e.load(sd, addr, p)


@model('collections::HashMap::get', 'collections::BTreeMap::get', 'collections::HashMap::get_mut')
def map_get(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p, m = map_at(e, sd, a[0])
    key = e.snap(sd, a[1])
    if key[0] == '&':
        key = key[1]
    else:
        key = ('app', 'deref', (key,))
    r = None
    while m[0] == 'app' and m[1] == 'mapstore':
        if e.equal(j, m[2][1], key):
            r = ('adt', 'option::Option', 'Some', ((0, ('&', m[2][2])),))
            break
        d = None
        from .engine import norm_cmp, decide_rng
        n = norm_cmp('eq', m[2][1], key)
        if n[0] == 'const':
            d = n[1]
        else:
            d = decide_rng(j.rng(n[1]), n[2], n[3])
        if d is False:
            m = m[2][0]
            continue
        break
    if r is None and m[0] == 'app' and m[1] == 'mapnew':
        r = ('adt', 'option::Option', 'None', ())
    if r is None:
        r = ('app', 'mapget', (m, key))
    return e.ret_to(j, si, fr, t, r)


@model('collections::HashMap::contains_key')
def map_contains(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p, m = map_at(e, sd, a[0])
    key = e.snap(sd, a[1])
    key = key[1] if key[0] == '&' else ('app', 'deref', (key,))
    if m == ('app', 'mapnew', ()):
        return e.ret_to(j, si, fr, t, ('int', 0))
    from .engine import mkcmp
    # Some has discriminant 1
    return e.ret_to(j, si, fr, t, mkcmp('eq', ('app', 'discr', (('app', 'mapget', (m, key)),)), ('int', 1)))


@model('collections::HashMap::insert', 'collections::BTreeMap::insert')
def map_insert(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p, m = map_at(e, sd, a[0])
    old = ('app', 'mapget', (m, e.snap(sd, a[1])))
    key, val = e.snap(sd, a[1]), e.snap(sd, a[2])
    # a store to the same key replaces the previous one
    if m[0] == 'app' and m[1] == 'mapstore' and e.equal(j, m[2][1], key):
        m = m[2][0]
    e.put(sd, addr, p, ('app', 'mapstore', (m, key, val)))
    return e.ret_to(j, si, fr, t, old)


@model('Clone::clone', 'ToOwned::to_owned', 'clone::Clone::clone')
def clone(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    ty = t[5][0]
    if 'to_owned' in k['name'] and ('str' in ty or '[' in ty):
        return NotImplemented
    addr, p = e.target(a[0])
    return e.ret_to(j, si, fr, t, e.load(sd, addr, p))


@model('option::Option::cloned', 'option::Option::copied')
def opt_cloned(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    v = a[0]
    if v[0] == 'adt':
        if v[2] == 'None':
            return e.ret_to(j, si, fr, t, v)
        x = v[3][0][1]
        addr, p = e.target(x)
        return e.ret_to(j, si, fr, t, ('adt', v[1], 'Some', ((0, e.load(sd, addr, p)),)))
    return NotImplemented


@model('Into::into', 'From::from')
def into(e, j, si, fr, t, k, a):
    prog = e.cfg.progs[si]
    if prog.ty(t[5][0]) == prog.ty(t[6]):
        return e.ret_to(j, si, fr, t, a[0])
    return NotImplemented


@model('PartialEq::eq', 'PartialEq::ne')
def peq(e, j, si, fr, t, k, a):
    from .engine import mkcmp, bneg
    sd = j.sides[si]
    # a crate-local hand-written or derived impl with a body is analysed instead
    x, y = e.strip_refs(sd, a[0]), e.strip_refs(sd, a[1])
    x, y = deref_term(e, sd, a[0]), deref_term(e, sd, a[1])
    c = mkcmp('eq', x, y)
    if x[0] == y[0] == 'adt' and x[1] == y[1]:
        if x[2] != y[2]:
            c = ('int', 0)
        elif not x[3]:
            c = ('int', 1)
        elif len(x[3]) == 1 and re.match(r"^(&('\w+ )?)*[\w:]*Option<&?(char|usize|u8|u16|u32|u64|bool|i32|i64)>$", t[5][0]):
            u, v = (deref_term(e, sd, z[3][0][1]) for z in (x, y))
            c = mkcmp('eq', u, v)
    if k['method'] == 'ne':
        c = bneg(c)
    return e.ret_to(j, si, fr, t, c)


@model('IntoIterator::into_iter')
def into_iter(e, j, si, fr, t, k, a):
    prog = e.cfg.progs[si]
    if prog.ty(t[5][0]) == prog.ty(t[6]):
        return e.ret_to(j, si, fr, t, a[0])
    return NotImplemented


def deref_term(e, sd, v):
    for _ in range(6):
        if v[0] == 'ref':
            v = e.load(sd, v[1], v[2])
        elif v[0] == '&':
            v = v[1]
        else:
            break
    return e.snap(sd, v)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def pord(e, j, si, fr, t, k, a):
    from .engine import mkcmp
    sd = j.sides[si]
    ty = t[5][0].replace('&', '').strip()
    m = re.fullmatch(r'(?:std|core)::option::Option<(\w+)>', ty)
    if m and m.group(1) in INTS:
        x, y = e.snap(sd, a[0]), e.snap(sd, a[1])
        while x[0] == '&':
            x = x[1]
        while y[0] == '&':
            y = y[1]
        if x[0] != 'adt' or y[0] != 'adt':
            return NotImplemented
        if x[2] == y[2] == 'Some':
            return e.ret_to(j, si, fr, t, mkcmp(k['method'], x[3][0][1], y[3][0][1]))
        p, q = x[2] == 'Some', y[2] == 'Some'
        return e.ret_to(j, si, fr, t, ('int', int({'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[k['method']])))
    if ty not in INTS:
        return NotImplemented
    x, y = e.snap(sd, a[0]), e.snap(sd, a[1])
    while x[0] == '&':
        x = x[1]
    while y[0] == '&':
        y = y[1]
    return e.ret_to(j, si, fr, t, mkcmp(k['method'], x, y))


def either(e, j, si, t, cond, yes, no):
    """both ways a condition can be, with the value each gives"""
    from .engine import assume, decide
    d = decide(j, cond)
    res = []
    for val, f in ((True, yes), (False, no)):
        if d is not None and d != val:
            continue
        j2 = j if d is not None else j.copy()
        if d is None and not assume(j2, cond, val):
            continue
        v = f(j2)
        if isinstance(v, list):
            res += v
        elif e.ret_to(j2, si, j2.sides[si].frames[-1], t, v) is None:
            res.append(j2)
    return res


INTS = ('usize', 'char', 'u8', 'i32', 'u32', 'u64', 'i64')


def compared(e, j, si, t, a):
    if t[5][0].replace('&', '').strip() not in INTS:
        return None
    out = []
    for x in a:
        x = e.snap(j.sides[si], x)
        while x[0] == '&':
            x = x[1]
        out.append(x)
    return out


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def ocmp(e, j, si, fr, t, k, a):
    from .engine import mkcmp
    xy = compared(e, j, si, t, a)
    if xy is None:
        return NotImplemented
    o = lambda n: ('adt', 'cmp::Ordering', n, ())
    if k['method'] == 'partial_cmp':
        o = lambda n: ('adt', 'option::Option', 'Some', ((0, ('adt', 'cmp::Ordering', n, ())),))
    return either(e, j, si, t, mkcmp('lt', *xy), lambda j2: o('Less'),
                  lambda j2: either(e, j2, si, t, mkcmp('eq', *xy), lambda j3: o('Equal'), lambda j3: o('Greater')))


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def omax(e, j, si, fr, t, k, a):
    from .engine import mkcmp
    xy = compared(e, j, si, t, a)
    if xy is None:
        return NotImplemented
    mx = k['name'].split('::')[-1] == 'max'
    return either(e, j, si, t, mkcmp('lt', *xy), lambda j2: a[1] if mx else a[0], lambda j2: a[0] if mx else a[1])


@model('cmp::Ordering::is_gt', 'cmp::Ordering::is_ge', 'cmp::Ordering::is_lt', 'cmp::Ordering::is_le', 'cmp::Ordering::is_eq', 'cmp::Ordering::is_ne')
def ordis(e, j, si, fr, t, k, a):
    v = a[0]
    if v[0] != 'adt':
        return NotImplemented
    yes = {'is_gt': ('Greater',), 'is_ge': ('Greater', 'Equal'), 'is_lt': ('Less',), 'is_le': ('Less', 'Equal'), 'is_eq': ('Equal',), 'is_ne': ('Less', 'Greater')}
    return e.ret_to(j, si, fr, t, ('int', int(v[2] in yes[k['name'].split('::')[-1]])))


@model('mem::replace')
def mem_replace(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    addr, p = e.target(a[0])
    old = e.load(sd, addr, p)
    e.put(sd, addr, p, a[1])
    return e.ret_to(j, si, fr, t, old)


@model('mem::swap')
def mem_swap(e, j, si, fr, t, k, a):
    sd = j.sides[si]
    x, y = e.target(a[0]), e.target(a[1])
    vx, vy = e.load(sd, *x), e.load(sd, *y)
    e.put(sd, x[0], x[1], vy)
    e.put(sd, y[0], y[1], vx)
    return e.ret_to(j, si, fr, t, UNIT)


@model('hint::must_use', 'convert::identity', 'hint::black_box', 'mem::drop', 'intrinsics::cold_path', 'hint::cold_path')
def ident(e, j, si, fr, t, k, a):
    return e.ret_to(j, si, fr, t, a[0] if a and 'drop' not in k['name'] else UNIT)


# ---- combinators of Option and Result: a case split, then the function value is called -------------
OPT, RES = 'option::Option', 'result::Result'
CASES = {OPT: ('Some', 1, 'None'), RES: ('Ok', 0, 'Err')}


def mk(ty, var, x=None):
    return ('adt', ty, var, () if x is None else ((0, x),))


def combinator(ty, name, good, bad):
    """good/bad: what happens in the two cases, from the arguments after the first"""
    def f(e, j, si, fr, t, k, a):
        from .engine import mkcmp, decide, assume
        yes, dval, no = CASES[ty]
        v = a[0]
        byref = t[5] and t[5][0].startswith('&')
        if byref:
            v = e.strip_refs(j.sides[si], v)
        if v[0] == 'adt':
            cases = [v[2] == yes]
        else:
            cases = [True, False]
        out = []
        for c in cases:
            j2 = j.copy() if len(cases) > 1 else j
            if v[0] != 'adt':
                cond = mkcmp('eq', ('app', 'discr', (v,)), ('int', dval if c else 1 - dval))
                d = decide(j2, cond)
                if d is False:
                    continue
                if d is None and not assume(j2, cond, True):
                    continue
            var = yes if c else no
            x = None if (ty == OPT and not c) else e.project(v, ('f', var, 0))
            act = (good if c else bad)
            fr2 = j2.sides[si].frames[-1]
            r = act(e, j2, si, fr2, t, v, x, a[1:])
            if r is None:
                if len(cases) == 1:
                    return None
                out.append(j2)
            elif isinstance(r, list):
                out += r
            elif r == 'dead':
                continue
            else:
                # an event
                if len(cases) == 1:
                    return r
                return NotImplemented
        return out
    TABLE['%s::%s' % (ty, name)] = f


def value(fn):
    return lambda e, j, si, fr, t, v, x, a: e.ret_to(j, si, fr, t, fn(v, x, a))


def invoke(n, wrap=None, arg=True):
    def g(e, j, si, fr, t, v, x, a):
        depth = len(j.sides[si].frames)
        r = e.call_value(j, si, fr, t, a[n], [x] if arg else [])
        fs = j.sides[si].frames
        if wrap is not None:
            if r is not None or len(fs) != depth + 1:
                from .engine import Inconclusive
                raise Inconclusive('combinator over a function without a body')
            fs[-1].hook = wrap
        return r
    return g


SAME = value(lambda v, x, a: v)
_N, _I0, _I1 = mk(OPT, 'None'), ('int', 0), ('int', 1)
for nm, g, b in (
        ('map', invoke(0, (OPT, 'Some')), value(lambda v, x, a: _N)),
        ('and_then', invoke(0), value(lambda v, x, a: _N)),
        ('map_or', invoke(1), value(lambda v, x, a: a[0])),
        ('map_or_else', invoke(1), invoke(0, arg=False)),
        ('unwrap_or', value(lambda v, x, a: x), value(lambda v, x, a: a[0])),
        ('unwrap_or_else', value(lambda v, x, a: x), invoke(0, arg=False)),
        ('or', SAME, value(lambda v, x, a: a[0])),
        ('or_else', SAME, invoke(0, arg=False)),
        ('and', value(lambda v, x, a: a[0]), value(lambda v, x, a: _N)),
        ('ok_or', value(lambda v, x, a: mk(RES, 'Ok', x)), value(lambda v, x, a: mk(RES, 'Err', a[0]))),
        ('ok_or_else', value(lambda v, x, a: mk(RES, 'Ok', x)), invoke(0, (RES, 'Err'), arg=False)),
        ('is_some', value(lambda v, x, a: _I1), value(lambda v, x, a: _I0)),
        ('is_none', value(lambda v, x, a: _I0), value(lambda v, x, a: _I1)),
        ('is_some_and', invoke(0), value(lambda v, x, a: _I0)),
        ('is_none_or', invoke(0), value(lambda v, x, a: _I1)),
        ('as_ref', value(lambda v, x, a: mk(OPT, 'Some', ('&', x))), value(lambda v, x, a: _N))):
    combinator(OPT, nm, g, b)
for nm, g, b in (
        ('map', invoke(0, (RES, 'Ok')), value(lambda v, x, a: v)),
        ('map_err', value(lambda v, x, a: v), invoke(0, (RES, 'Err'))),
        ('and_then', invoke(0), value(lambda v, x, a: v)),
        ('or_else', SAME, invoke(0)),
        ('map_or', invoke(1), value(lambda v, x, a: a[0])),
        ('map_or_else', invoke(1), invoke(0)),
        ('unwrap_or', value(lambda v, x, a: x), value(lambda v, x, a: a[0])),
        ('unwrap_or_else', value(lambda v, x, a: x), invoke(0)),
        ('ok', value(lambda v, x, a: mk(OPT, 'Some', x)), value(lambda v, x, a: _N)),
        ('err', value(lambda v, x, a: _N), value(lambda v, x, a: mk(OPT, 'Some', x))),
        ('is_ok', value(lambda v, x, a: _I1), value(lambda v, x, a: _I0)),
        ('is_err', value(lambda v, x, a: _I0), value(lambda v, x, a: _I1)),
        ('is_ok_and', invoke(0), value(lambda v, x, a: _I0))):
    combinator(RES, nm, g, b)


@model('bool::<impl bool>::then', 'bool::<impl bool>::then_some')
def bool_then(e, j, si, fr, t, k, a):
    from .engine import decide, assume
    some_ = k['name'].endswith('then_some')
    d = decide(j, a[0])
    out = []
    for c in ((True, False) if d is None else (d,)):
        j2 = j.copy() if d is None else j
        if d is None and not assume(j2, a[0], c):
            continue
        fr2 = j2.sides[si].frames[-1]
        if not c:
            e.ret_to(j2, si, fr2, t, _N)
        elif some_:
            e.ret_to(j2, si, fr2, t, mk(OPT, 'Some', a[1]))
        else:
            invoke(0, (OPT, 'Some'), arg=False)(e, j2, si, fr2, t, None, None, a[1:])
        out.append(j2)
    return out


# ---- what is printed ------------------------------------------------------------------------
def template(s):
    """pieces of a compiled format string"""
    b = ast.literal_eval(s)
    out = []
    i = 0
    arg = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(('txt', b[i:i + c].decode()))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(('txt', b[i:i + n].decode()))
            i += n
        elif c == 0xC0:
            out.append(('arg', arg, ()))
            arg += 1
        else:
            # formatting options and explicit argument indices
            opt = []
            if c & 1:
                opt.append(('flags', b[i:i + 4]))
                i += 4
            if c & 2:
                opt.append(('width', b[i:i + 2]))
                i += 2
            if c & 4:
                opt.append(('prec', b[i:i + 2]))
                i += 2
            if c & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            if c & 0x30:
                opt.append(('dyn', c & 0x30))
            out.append(('arg', arg, tuple(opt)))
            arg += 1
    return out


def behind(v):
    while v[0] == '&' or v[0] == 'app' and v[1] == 'deref':
        v = v[1] if v[0] == '&' else v[2][0]
    return v


def printed(v):
    """pieces printed by the given format arguments"""
    from .engine import Inconclusive
    if v[0] == 'app' and v[1].startswith('fmt::Arguments::from_str'):
        x = behind(v[2][0])
        if x[0] == 'str':
            return (('txt', x[1]),)
    if v[0] == 'app' and v[1] == 'fmt::Arguments::new':
        t, xs = behind(v[2][0]), behind(v[2][1])
        if t[0] == 'app' and t[1] == 'const' and xs[0] == 'arr':
            out = []
            for p in template(t[2][0]):
                if p[0] == 'txt':
                    out.append(p)
                    continue
                a = behind(xs[1][p[1]])
                if a[0] != 'app' or not a[1].startswith('fmt::rt::Argument::new_'):
                    raise Inconclusive('prints an argument that is not modelled')
                x = behind(a[2][0])
                how = a[1].split('::new_')[1]
                out.append(('txt', x[1]) if x[0] == 'str' and how == 'display' and not p[2] else ('disp', x) if how == 'display' and not p[2] else ('disp', ('app', how, (x, ('str', repr(p[2]))))))
            return tuple(out)
    raise Inconclusive('prints something that is not modelled: %r' % (v[:2],))


def lines(out):
    """printed lines that tell about rules, as lists of pieces"""
    ls, cur = [], []
    for p in out:
        if p[0] != 'txt':
            cur.append(p)
            continue
        xs = p[1].replace('`', '').split('\n')
        for i, x in enumerate(xs):
            if i:
                ls.append(cur)
                cur = []
            if x:
                if cur and cur[-1][0] == 'txt':
                    cur[-1] = ('txt', cur[-1][1] + x)
                else:
                    cur.append(('txt', x))
    if cur:
        ls.append(cur)
    return [tuple(l) for l in ls if any(p[0] == 'txt' and ('rule' in p[1] or 'level' in p[1]) for p in l)]
