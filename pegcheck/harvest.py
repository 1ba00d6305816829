"""Constants the translator itself compares against: a change that treats one size, count or name
specially has to mention it, so witnesses are generated around every constant found."""
import json, os
from . import build

NUM = ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize')
CODEGEN = ('translate.rs', 'analysis.rs', 'ast.rs', 'lib.rs')


def facts_of(fa, crate='peg_macros'):
    return json.load(open(os.path.join(fa, crate + '.json')))


def ints(d, files=CODEGEN, lo=2, hi=200):
    out = set()

    def op(o):
        if o and o[0] == 'k' and o[1].get('t') == 'int' and isinstance(o[1]['v'], int) and lo <= o[1]['v'] <= hi:
            out.add(o[1]['v'])
    for b in d['bodies']:
        if not b['span'].split(':')[0].endswith(files):
            continue
        for blk in b['blocks']:
            if blk['cleanup']:
                continue
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Rem', 'Div', 'BitAnd', 'Offset', 'Sub', 'SubWithOverflow'):
                    op(s[2][2]), op(s[2][3])
                if s[0] == '=' and s[2][0] == 'agg':
                    for a in s[2][2]:
                        if a[0] == 'k' and a[1].get('ty') in NUM:
                            op(a)
            t = blk['t']
            if t[0] == 'call':
                for a in t[2]:
                    if a[0] == 'k' and a[1].get('ty') in NUM:
                        op(a)
            if t[0] == 'switch' and t[4] in NUM:
                # a match on a number (not on an enum's tag: those switch on a discriminant local)
                src = t[1]
                disc = {s[1][0] for s in blk['s'] if s[0] == '=' and s[2][0] == 'discr'}
                if src[0] in ('c', 'm') and src[1][0] in disc:
                    continue
                out |= {v for v, _ in t[2] if lo <= v <= hi}
    return out


def around(ns, cap=64):
    out = set()
    for n in ns:
        if n <= cap:
            out |= {n - 1, n, n + 1}
    return sorted(x for x in out if x >= 0)


def strings(d, files=CODEGEN):
    out = set()
    for b in d['bodies']:
        if not b['span'].split(':')[0].endswith(files):
            continue
        for bb in [b] + b['promoted']:
            walk(bb['blocks'], out)
    return out


def walk(x, out):
    if isinstance(x, dict):
        if x.get('t') == 'str':
            out.add(x.get('v', x.get('s')))
        for v in x.values():
            walk(v, out)
    elif isinstance(x, list):
        for v in x:
            walk(v, out)
