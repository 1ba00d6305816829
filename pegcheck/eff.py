"""Effects: what functions may depend on besides their arguments, read off the calls, constants, statics and casts of their MIR."""
import re

# modules of the standard library whose functions bring in something from outside (or keep something for later)
OUTSIDE = [(re.compile(p), w) for p, w in (
    (r'^std::(io|fs|net|os)::', 'input or output'), (r'^std::env::', 'the environment'), (r'^(std|core)::time::.*::(now|elapsed)$|^std::time::(SystemTime|Instant)|^std::sys::time', 'the clock'),
    (r'^std::process::', 'the process'), (r'^std::thread::local', 'thread-local state'), (r'^std::thread::', 'threads'), (r'^std::hash::random::', 'randomness'),
    (r'^(std|core)::sync::', 'shared state'), (r'^std::sys', 'the system'), (r'^(std|core)::arch::', 'the processor'), (r'^std::backtrace::', 'the stack'), (r'^std::panic::(set_hook|take_hook)', 'the panic hook'),
    (r'^alloc::boxed::.*::leak$|^alloc::(vec|string)::.*::leak$|^core::mem::forget$', 'memory that outlives the run'),
    (r'^core::ptr::.*::(addr|expose_provenance)$', 'addresses'), (r'^core::fmt::rt::.*::new_pointer$', 'addresses'), (r'^proc_macro::.*(local_file|source_file|tracked)', 'files'),
    (r'^(rand|getrandom|once_cell|lazy_static|libc)::', 'state from another crate'))]
# spared: a lock or lazily computed constant that nothing can write to afterwards
SPARED = re.compile(r'^(std|core|alloc)::sync::(lazy_lock|Arc|Weak|poison$|atomic::(fence|compiler_fence))|::LazyLock|^std::io::error::|^std::process::(abort|exit)|^std::thread::panicking')

HASH = re.compile(r'\b(?:HashMap|HashSet|hash_map::\w+|hash_set::\w+|hash::map::\w+|hash::set::\w+)\b')
HITER = re.compile(r'\bhash_(?:map|set)::(?:Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|Difference|Union|Intersection|SymmetricDifference|ExtractIf)\b')
UNORDERED = {'any', 'all', 'count', 'sum', 'product', 'max', 'min', 'size_hint', 'len'}
ADAPT = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'inspect', 'chain', 'by_ref', 'into_iter', 'iter', 'peekable', 'clone', 'fuse'}
UNIQUE = {'find', 'find_map', 'fold', 'try_fold', 'for_each', 'try_for_each', 'reduce', 'max_by', 'max_by_key', 'min_by', 'min_by_key', 'partition', 'unzip'}
ORDERED = {'enumerate', 'zip', 'take', 'skip', 'take_while', 'skip_while', 'map_while', 'step_by', 'scan', 'last', 'position', 'nth', 'eq', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'ne', 'is_sorted'}
SINK = re.compile(r'^alloc::(vec|string|collections::(vec_deque|linked_list))::|::ToTokens::|::TokenStreamExt::|^quote::|^proc_macro2?::|core::fmt::|::Extend::extend$')


def calls(b):
    for i, blk in enumerate(b['blocks']):
        t = blk['t']
        if t[0] == 'call' and t[1][0] == 'k' and t[1][1]['t'] == 'fn':
            yield i, t[1][1], t[7] if len(t) > 7 else b['span']


def consts(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
            out.append(x[1])
        else:
            for y in x:
                consts(y, out)


def path(k):
    return k.get('res') or k['id']


def is_sink(n):
    return SINK.search(n) and re.search(r'::(push|push_str|insert|extend\w*|append\w*|to_tokens|write_\w+|quote_\w+|from_iter|add_assign)$', n)


class Scan:
    def __init__(self, bodies=()):
        self.bodies = {b['id']: b for b in bodies}
        self.found = []         # (key, text)
        self.undecided = []
        self.n = {'functions': 0, 'calls': 0, 'constants': 0, 'casts': 0, 'unordered containers': 0}

    def nested(self, b):
        return [c for i, c in self.bodies.items() if i.startswith(b['id'] + '::{closure')]

    def run(self, statics):
        for b in self.bodies.values():
            self.body(b, statics)
        return self

    def constant_once(self, b):
        """cells filled once in this function are filled with something computed from nothing"""
        ks = [k for _, k, _ in calls(b) if re.search(r'(OnceLock|OnceCell)', k['name'])]
        cs = self.nested(b)
        return bool(ks) and all(k['name'].endswith('::get_or_init') for k in ks) and not any(c.get('upvars') for c in cs)

    def grows(self, bid, seen=None):
        """a function that reaches a call adding to an ordered container"""
        seen = set() if seen is None else seen
        b = self.bodies.get(bid)
        if b is None or bid in seen:
            return False
        seen.add(bid)
        for c in [b] + self.nested(b):
            for _, k, _ in calls(c):
                if is_sink(path(k)) or is_sink(k['name']) or self.grows(path(k), seen):
                    return True
        return False

    def handed_on(self, b, i):
        """a function called in the loop around block i that may change an ordered container of its caller"""
        for j, k, _ in calls(b):
            t = b['blocks'][j]['t']
            muts = [x for x in t[5] if isinstance(x, str) and re.match(r"&('\w+ |'\{[^}]*\} )?mut ", x) and not HASH.search(x) and not HITER.search(x) and 'BTree' not in x]
            if muts and path(k) in self.bodies and reaches(b, i, j) and reaches(b, j, i) and self.grows(path(k)):
                return k['name']
        return None

    def bad(self, what, b, span, detail):
        self.found.append(('%s in %s: %s' % (what, b['name'], detail), 'function `%s` depends on %s: %s\nat %s' % (b['name'], what, detail, span)))

    def body(self, b, statics, cyclic=None):
        self.n['functions'] += 1
        cs = list(calls(b))
        names = [path(k) for _, k, _ in cs] + [k['name'] for _, k, _ in cs]
        sorts = any(re.search(r'::sort(ed)?(_unstable)?(_by\w*)?$', n) for n in names)
        lens = any(re.search(r'hash.*::(len|is_empty)$', n) for n in names)
        sink = [(i, n) for i, k, _ in cs for n in (path(k), k['name']) if is_sink(n)]
        once = self.constant_once(b)
        for i, k, sp in cs:
            self.n['calls'] += 1
            if once and k['name'].endswith('::get_or_init'):
                continue
            p = path(k)
            for q in {p, k['id'], k['name']}:
                if SPARED.search(q):
                    break
                w = [x for r, x in OUTSIDE if r.search(q)]
                if w:
                    self.bad(w[0], b, sp, 'calls ' + k['name'])
                    break
            self.order(b, i, k, p, sp, sorts, lens, sink)
        for blk in b['blocks']:
            ks = []
            consts(blk['s'], ks)
            consts(blk['t'], ks)
            for k in ks:
                self.n['constants'] += 1
                if k['t'] == 'static':
                    s = statics.get(k['id'])
                    ty = s['ty'] if s is not None else ''
                    constant = re.search(r'Lazy(Lock|Cell)<', ty) or once and re.search(r'Once(Lock|Cell)<', ty)
                    inner = re.sub(r'^.*?(Lazy|Once)(Lock|Cell)<', '', ty)
                    if s is not None and (s['mut'] or not s['freeze']) and not (constant and not re.search(r'Atomic|Mutex|RwLock|Cell<|Once', inner)):
                        self.bad('global state', b, b['span'], 'static `%s` of type `%s`' % (k['id'], s['ty']))
                    elif s is None and re.search(r'Atomic|Mutex|RwLock|Once|Cell<', k.get('ty', '')):
                        self.bad('global state', b, b['span'], 'static `%s` of type `%s`' % (k['id'], k.get('ty')))
                elif 'LocalKey<' in str(k.get('ty', '')):
                    self.bad('thread-local state', b, b['span'], 'a thread-local of type `%s`' % k['ty'])
            for s in blk['s']:
                self.casts(b, s)

    def casts(self, b, s):
        if isinstance(s, list):
            if len(s) == 4 and s[0] == 'cast':
                self.n['casts'] += 1
                if 'Expose' in s[1]:
                    self.bad('addresses', b, b['span'], 'a pointer is turned into a number')
            for x in s:
                if isinstance(x, list):
                    self.casts(b, x)

    def order(self, b, i, k, p, sp, sorts, lens, sink):
        """iteration over a hashed container, whose order differs from run to run"""
        m = p.split('::')[-1]
        a = ' '.join(map(str, k['args'])) + ' ' + str(k.get('self', ''))
        hit = HITER.search(a)
        own = re.search(r'collections::hash::(map|set)::|hash_(map|set)::|HashMap|HashSet', p + ' ' + k['name'] + ' ' + a)
        if own:
            self.n['unordered containers'] += 1
        if k['name'].split('::')[-1] in ('new_debug',) and HASH.search(a):
            self.bad('the order of a hashed container', b, sp, 'formats one')
            return
        if not hit:
            if 'quote' in p and HASH.search(a):
                self.bad('the order of a hashed container', b, sp, 'quotes one')
            return
        m = k.get('method') or m
        if m in UNORDERED or m in ADAPT:
            return
        if m in ('collect', 'from_iter', 'extend'):
            tgt = str(k['args'][-1] if m == 'collect' else k['args'][0])
            if re.search(r'^(\w+::)*(BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap)<', tgt):
                return
            if sorts:
                return
            self.bad('the order of a hashed container', b, sp, 'collects its elements into `%s` without sorting' % tgt)
            return
        if m in ORDERED or 'quote' in p:
            self.bad('the order of a hashed container', b, sp, 'uses `%s` on its elements' % m)
            return
        if m == 'next':
            if in_cycle(b, i):
                inside = [n for j, n in sink if reaches(b, i, j) and reaches(b, j, i)]
                if inside and not sorts:
                    self.bad('the order of a hashed container', b, sp, 'a loop over its elements calls `%s`' % inside[0])
                elif not sorts and self.handed_on(b, i):
                    self.bad('the order of a hashed container', b, sp, 'a loop over its elements calls `%s`, which adds to what it is given' % self.handed_on(b, i))
                elif not sorts:
                    self.undecided.append('%s loops over a hashed container (%s)' % (b['name'], sp))
            elif not lens:
                self.bad('the order of a hashed container', b, sp, 'takes its first element')
            return
        if m in UNIQUE:
            inner = [n for c in self.nested(b) for _, q, _ in calls(c) for n in (path(q), q['name']) if is_sink(n)]
            if inner and not sorts and m not in ('find', 'find_map'):
                self.bad('the order of a hashed container', b, sp, '`%s` over its elements calls `%s`' % (m, inner[0]))
                return
            self.undecided.append('%s uses `%s` on a hashed container (%s)' % (b['name'], m, sp))


def targets(t):
    """successor blocks of a terminator"""
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x for _, x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    if k == 'assert':
        return [t[3]]
    return []


def in_cycle(b, i):
    return reaches(b, i, i)


def reaches(b, i, j):
    seen = set()
    todo = targets(b['blocks'][i]['t'])
    while todo:
        x = todo.pop()
        if x == j:
            return True
        if x not in seen:
            seen.add(x)
            todo += targets(b['blocks'][x]['t'])
    return False
