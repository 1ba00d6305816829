"""Loads the MIR facts dumped by /verif/driver and normalises names so that facts of different
crates (code under analysis, reference code) can be compared."""
import json, re, hashlib

CORE = re.compile(r'\b(?:core|std|alloc)::')


def norm_ty(s, crates):
    s = re.sub(r"'(?:\w+|\{[^}]*\})", "", s)
    s = re.sub(r'\bfor<[^>]*> ?', '', s)
    s = re.sub(r'\{closure@[^}]*\}', '{closure}', s)
    s = CORE.sub('', s)
    for c in crates:
        s = re.sub(r'\b%s::' % re.escape(c), '', s)
    s = re.sub(r'\bimpl Fn\([^{}]*', 'impl Fn', s) if 'impl Fn(' in s else s
    s = s.replace('<, ', '<').replace('<,', '<').replace('& ', '&').replace(', >', '>').replace('<>', '')
    return s.replace(' ', '')


class Program:
    """One or more fact files, seen from one side of a comparison."""

    def __init__(self, files, crates):
        # crates: crate names stripped from paths (they are the 'same' crate on both sides)
        self.crates = list(crates)
        self.bodies = {}
        self.adts = {}
        self.statics = []
        self.unsafe_fns = []
        self.items = []
        self.crates_of = {}
        self.byname = {}
        self.local = set()
        for f in files:
            d = json.load(open(f)) if isinstance(f, str) else f
            for b in d['bodies']:
                b['crate'] = d['crate']
                self.add(b)
                self.local.add(b['id'])
            for b in d['ext']:
                if b['id'] not in self.bodies:
                    b['crate'] = b['id'].split('::')[0]
                    self.add(b)
            for k, v in d['adts'].items():
                self.adts.setdefault(k, v)
            self.statics += d['statics']
            self.crates_of[d['crate']] = d['crates']
            self.unsafe_fns += d['unsafe_fns']
            for it in d['items']:
                it['crate'] = d['crate']
                self.items.append(it)
        self._canon = {}
        self._ty = {}
        self._clo = {}
        self._an = {}

    def rename_fields(self, m):
        """rename fields everywhere, so that both sides of a comparison use the same names"""
        def go(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == 'f' and x[2] in m:
                    x[2] = m[x[2]]
                else:
                    for y in x:
                        if isinstance(y, list):
                            go(y)
        for b in self.bodies.values():
            for blk in b['blocks']:
                go(blk['s'])
                go(blk['t'])
        for a in self.adts.values():
            for v in a['variants']:
                for f in v['fields']:
                    f[0] = m.get(f[0], f[0])

    def add(self, b):
        self.bodies[b['id']] = b
        self.byname.setdefault(b['name'], b)
        for p in b['promoted']:
            p['crate'] = b['crate']
            self.bodies[p['id']] = p

    def ty(self, s):
        r = self._ty.get(s)
        if r is None:
            r = self._ty[s] = norm_ty(s, self.crates)
        return r

    def strip(self, name):
        name = CORE.sub('', name)
        for c in self.crates:
            if name.startswith(c + '::'):
                name = name[len(c) + 2:]
        return name

    def adt_name(self, aid):
        a = self.adts.get(aid)
        n = a['name'] if a else aid
        r = self.strip(n)
        if r.endswith('RuleResult'):
            return 'RuleResult'
        return r

    def callee(self, k):
        """canonical callee key of a fn constant"""
        key = (k['id'], k.get('self'), tuple(k['args']))
        r = self._canon.get(key)
        if r is not None:
            return r
        if 'trait' in k:
            tr = self.strip(k['trait'])
            r = tr.split('::')[-1] + '::' + k['method']
        else:
            r = self.strip(k['name'])
            r = re.sub(r'::<[^<>]*(?:<[^<>]*>[^<>]*)*>', '', r)
        self._canon[key] = r
        return r

    def body_hash(self, bid, depth=0):
        """structural hash of a closure/fn body, independent of names, spans and local ids"""
        h = self._clo.get(bid)
        if h is not None:
            return h
        b = self.bodies.get(bid)
        if b is None:
            return 'X' + bid
        self._clo[bid] = 'REC'
        out = []

        def op(o):
            if o[0] == 'k':
                k = o[1]
                t = k['t']
                if t == 'fn':
                    # local helper functions by name; generics dropped
                    return ('fn', self.callee(k), tuple(re.findall(r'#\d+', k['id'])) if k['id'] in self.bodies else ())
                if t == 'closure':
                    return ('clo', self.body_hash(k['id'], depth + 1))
                if t == 'promoted':
                    return ('prom', self.body_hash(k['of'] + '#p%d' % k['n'], depth + 1))
                if t == 'int':
                    return ('int', k['v'])
                if t == 'variant':
                    return ('variant', k['vname'])
                return (t, self.ty(str(k.get('v', k.get('s', '')))))
            return (o[0], place(o[1]))

        def place(p):
            return (p[0], tuple((e[0], e[1]) if e[0] in 'fvi' else tuple(e) for e in p[1]))

        def rv(r):
            k = r[0]
            if k == 'use':
                return ('use', op(r[1]))
            if k == 'ref':
                return ('ref', r[1], place(r[2]))
            if k == 'bin':
                return ('bin', r[1], op(r[2]), op(r[3]))
            if k == 'un':
                return ('un', r[1], op(r[2]))
            if k == 'discr':
                return ('discr', place(r[1]))
            if k == 'cast':
                return ('cast', r[1], op(r[2]), self.ty(r[3]))
            if k == 'agg':
                ops = tuple(op(o) for o in r[2])
                if r[1] == 'adt':
                    return ('agg', self.adt_name(r[3]), r[5], ops)
                if r[1] == 'closure':
                    return ('agg', 'closure', self.body_hash(r[3], depth + 1), ops)
                return ('agg', r[1], ops)
            if k == 'repeat':
                return ('repeat', op(r[1]), r[2])
            return (k,)
        for blk in b['blocks']:
            if blk['cleanup']:
                continue
            for s in blk['s']:
                if s[0] == '=':
                    out.append(('=', place(s[1]), rv(s[2])))
            t = blk['t']
            if t[0] == 'call':
                out.append(('call', op(t[1]), tuple(op(o) for o in t[2]), place(t[3]), t[4]))
            elif t[0] == 'switch':
                out.append(('switch', op(t[1]), str(t[2]), t[3]))
            elif t[0] == 'assert':
                out.append(('assert', t[2], t[3]))
            elif t[0] == 'drop':
                out.append(('drop', t[2]))
            else:
                out.append(tuple(t))
        h = hashlib.sha1(repr(out).encode()).hexdigest()[:16]
        self._clo[bid] = h
        return h

    # ---- per-body analyses -------------------------------------------------
    def analysis(self, bid):
        a = self._an.get(bid)
        if a is None:
            a = self._an[bid] = BodyAnalysis(self.bodies[bid])
        return a


def _place_uses(p, uses):
    uses.add(p[0])
    for e in p[1]:
        if e[0] == 'i':
            uses.add(e[1])


def _op_uses(o, uses):
    if o[0] in 'cm':
        _place_uses(o[1], uses)


def _rv_uses(r, uses):
    k = r[0]
    if k == 'use':
        _op_uses(r[1], uses)
    elif k == 'ref':
        _place_uses(r[2], uses)
    elif k == 'bin':
        _op_uses(r[2], uses)
        _op_uses(r[3], uses)
    elif k in ('un', 'cast'):
        _op_uses(r[2], uses)
    elif k == 'discr':
        _place_uses(r[1], uses)
    elif k == 'agg':
        for o in r[2]:
            _op_uses(o, uses)
    elif k == 'repeat':
        _op_uses(r[1], uses)


class BodyAnalysis:
    """live locals at the start of each block (backward dataflow to fixpoint)"""

    def __init__(self, b):
        blocks = b['blocks']
        n = len(blocks)
        succ = []
        for x in blocks:
            t = x['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [v[1] for v in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                s = [t[3]]
            else:
                s = []
            succ.append(s)
        self.succ = succ
        allv = set(range(len(b['locals'])))
        gen, keep = [frozenset()] * n, [frozenset()] * n
        pred = [[] for _ in range(n)]
        for i in range(n):
            for t in succ[i]:
                pred[t].append(i)
            if not blocks[i]['cleanup']:
                gen[i] = frozenset(self._block(blocks[i], set()))
                keep[i] = frozenset(self._block(blocks[i], set(allv)))
        live_in = list(gen)
        work = set(range(n))
        while work:
            i = max(work)
            work.discard(i)
            if blocks[i]['cleanup']:
                continue
            new = gen[i]
            for t in succ[i]:
                new = new | (live_in[t] & keep[i])
            if new != live_in[i]:
                live_in[i] = new
                work.update(pred[i])
        self.live_in = live_in

    def _block(self, x, live):
        t = x['t']
        k = t[0]
        if k == 'call':
            d = t[3]
            if not d[1]:
                live.discard(d[0])
            else:
                _place_uses(d, live)
            _op_uses(t[1], live)
            for o in t[2]:
                _op_uses(o, live)
        elif k == 'switch':
            _op_uses(t[1], live)
        elif k == 'assert':
            _op_uses(t[1], live)
        elif k == 'return':
            live.add(0)
        for s in reversed(x['s']):
            if s[0] == '=':
                p = s[1]
                if not p[1]:
                    live.discard(p[0])
                else:
                    _place_uses(p, live)
                _rv_uses(s[2], live)
            elif s[0] == 'dead':
                live.discard(s[1])
            elif s[0] == 'setdiscr':
                _place_uses(s[1], live)
        return live
