"""State of the crate that outlasts a call: what it can hold when an operation starts.

Only used when the crate keeps such state (atomics or thread-local cells); the checks are then repeated with
that state holding values it can reach, to look for a violation.  Nothing is ever accepted on this ground."""
import json
import re
import numpy as np
from core import *

CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Rem', 'BitAnd', 'Cmp'}
MOVES = re.compile(r'::(fetch_\w+|update|try_update|compare_exchange\w*|compare_and_swap)$')
SETS = re.compile(r'(?:Atomic|Cell|LocalKey)(?:::<.*>|\w+)?::(store|set|swap|replace)$')


def leaf(c):
    """The number inside the initial value of an atomic."""
    if isinstance(c, dict):
        for k in ('int', 'bool'):
            if k in c:
                return int(c[k])
        for v in c.values():
            r = leaf(v)
            if r is not None:
                return r
    elif isinstance(c, list):
        for v in c:
            r = leaf(v)
            if r is not None:
                return r
    return None


def scalar_type(P, ty):
    while True:
        t = P.types[ty]
        if t['k'] in ('int', 'bool'):
            return ty
        if t['k'] != 'adt' or not t.get('args'):
            return None
        ty = t['args'][0]
        if not isinstance(ty, int):
            return None


def mentions(o, test):
    if isinstance(o, dict):
        return test(o) or any(mentions(v, test) for v in o.values())
    if isinstance(o, list):
        return any(mentions(v, test) for v in o)
    return False


def compared(o, out):
    """Constants that something is compared with, or reduced by."""
    if isinstance(o, dict):
        if o.get('op') in CMP and 'r' in o:
            for s in o.values():
                collect_int(s, out)
        if o.get('t') == 'switch':
            for s in o.values():
                collect_ints(s, out)
        for v in o.values():
            compared(v, out)
    elif isinstance(o, list):
        for v in o:
            compared(v, out)


def collect_int(o, out):
    if isinstance(o, dict):
        if 'int' in o:
            out.add(int(o['int']))
        else:
            for v in o.values():
                collect_int(v, out)


def collect_ints(o, out):
    if isinstance(o, list):
        for v in o:
            if isinstance(v, list) and v and isinstance(v[0], (int, str)):
                try:
                    out.add(int(v[0]))
                except ValueError:
                    pass
            collect_ints(v, out)


class Key:
    def __init__(self, name, key, sort, init, test):
        self.name, self.key, self.sort, self.init, self.test = name, key, sort, init, test

    def term(self, v):
        t = boolc(bool(v)) if self.sort == 'bool' else const(v, self.sort)
        return Agg([Agg([t])]) if self.name == 'thread-local state' else t


def keys(w):
    P = w.P
    out = []
    for i, s in enumerate(P.statics):
        if s['crate'] == 'poker' and not s['freeze'] and not s['mut'] and s['val'] is not None:
            ty, v = scalar_type(P, s['ty']), leaf(s['val'])
            if ty is not None and v is not None and P.types[s['ty']]['name'].split('<')[0].split('::')[-1].startswith('Atomic'):
                out.append(Key(s['path'].split('::')[-1], s['path'], sort_of(P, ty), v, lambda o, i=i: o.get('static') == i))
    seen = {}

    def locals_(o):
        if isinstance(o, dict):
            c, ty = o.get('const'), o.get('ty')
            if isinstance(c, dict) and isinstance(ty, int):
                t = P.types[ty]
                inner = c
                if t['k'] == 'ref':
                    t, ty, inner = P.types[t['ty']], t['ty'], c.get('ref')
                if t['k'] == 'adt' and t['path'].endswith('LocalKey') and isinstance(inner, dict):
                    seen.setdefault(json.dumps(inner, sort_keys=True), ty)
            for v in o.values():
                locals_(v)
        elif isinstance(o, list):
            for v in o:
                locals_(v)
    for i in P.insts:
        if i['crate'] == 'poker' and i['body'] is not None:
            locals_(i['body'])
    for k, ty in seen.items():
        st = scalar_type(P, ty)
        if st is not None:
            def test(o, k=k):
                return any(isinstance(v, dict) and json.dumps(v, sort_keys=True) == k for v in (o, o.get('const'), o.get('ref')))
            out.append(Key('thread-local state', k, sort_of(P, st), 0, test))
    return out


def sort_of(P, ty):
    t = P.types[ty]
    return 'bool' if t['k'] == 'bool' else ('i' if t['signed'] else 'u', t['bits'])


def callees(i, P):
    out = []
    for b in i['body']['blocks']:
        t = b['term']
        if t['t'] == 'call' and 'const' in t['f'] and 'fn' in t['f']['const']:
            out.append((P.insts[t['f']['const']['fn']], t))
    return out


def near(w, key):
    """Functions that touch the state, with their callers."""
    P = w.P
    mine = [i for i in P.insts if i['crate'] == 'poker' and i['body'] is not None]
    touch = [i for i in mine if mentions(i['body'], key.test)]
    ids = {i['id'] for i in touch}
    names = [i['np'] for i in touch]
    call = [i for i in mine if any(c['id'] in ids for c, _ in callees(i, P))]
    inside = [i for i in mine if any(i['np'].startswith(n + '::') for n in names) or any(n.startswith(i['np'] + '::') for n in names)]
    return touch, [i for i in mine if i in touch or i in call or i in inside]


def counts(w, key):
    """Whether the state moves on by itself, rather than taking one of a few values."""
    touch, around = near(w, key)
    for i in around:
        for c, t in callees(i, w.P):
            if MOVES.search(c['np']):
                return True
            if SETS.search(c['np']) and any('const' not in a for a in t['args'][1:2]):
                return True
    return False


def candidates(w, key):
    cs = set()
    for i in near(w, key)[1]:
        compared(i['body'], cs)
    out = []
    if key.sort == 'bool':
        return []
    top = 2 ** (key.sort[1] - (key.sort[0] == 'i')) - 1
    for c in sorted((c for c in cs if 2 <= c <= 2 ** 40), reverse=True):
        out += [c, c - 1, c + 1]
    if top <= 2 ** 32:
        out.append(top)
    out += [1, 2]
    res = []
    for c in out:
        if c <= top and c not in res and c != key.init:
            res.append(c)
    return res


def after(terms, n=5):
    """Values the state is seen to hold after a call."""
    out = []
    rnd = np.random.default_rng(2)
    for t in terms:
        while isinstance(t, Agg):
            t = t.fields[0]
        if not isinstance(t, Term) or t.syms:
            continue
        try:
            if t.is_const:
                vs = [t.data]
            else:
                env = {d: rnd.integers(0, d.size, 12) for d in t.dims}
                vs = evaluate(t, env).reshape(-1).tolist()
        except Unsupported:
            continue
        for v in vs:
            if int(v) not in out:
                out.append(int(v))
    return out[:n]


def stored(w, key):
    """Constants the state is set to."""
    out = []
    for i in near(w, key)[1]:
        for c, t in callees(i, w.P):
            if SETS.search(c['np']):
                cs = set()
                for a in t['args'][1:2]:
                    collect_const(a, cs)
                out += sorted(cs)
    return out


def collect_const(o, out):
    if isinstance(o, dict):
        for k in ('int', 'bool'):
            if k in o and not isinstance(o[k], (dict, list)):
                out.add(int(o[k]))
        for v in o.values():
            collect_const(v, out)
    elif isinstance(o, list):
        for v in o:
            collect_const(v, out)


def reached(w, key, left):
    """Values to try, the most telling first; left is what a first call is seen to leave."""
    more = [v for v in left if v != key.init]
    if not counts(w, key):
        return more + [v for v in stored(w, key) if v != key.init and v not in more]
    if not more:
        return []
    cs = candidates(w, key)
    return cs + [v for v in more if v not in cs]
