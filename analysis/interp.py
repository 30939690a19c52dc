"""Flow-sensitive abstract interpretation of MIR.

Values are exact finite functions of abstract dimensions (terms.py).  A branch whose condition is
not settled is analysed on both sides and the two states are joined at the immediate
post-dominator; loops are solved as recurrences over an iteration dimension, or unrolled when
they are short.  No code of the crate is executed and no path is handed to a solver.
"""
import json
import re
import sys
import time
import numpy as np
from terms import *
from values import *
from prog import Prog, norm

sys.setrecursionlimit(20000)


class Diverged(Exception):
    """The call never returns."""


class Unsolved(Unsupported):
    """A loop rule did not apply."""


class Event:
    __slots__ = ('guard', 'msg', 'inst', 'sp', 'stack')

    def __init__(self, guard, msg, inst, sp, stack):
        self.guard, self.msg, self.inst, self.sp, self.stack = guard, msg, inst, sp, stack

    def where(self):
        return '%s at %s' % (self.msg, self.sp)


class State:
    __slots__ = ('mem', 'path')

    def __init__(self, mem=None, path=TRUE):
        self.mem = mem if mem is not None else {}
        self.path = path

    def fork(self):
        return State(dict(self.mem), self.path)


class Frame:
    __slots__ = ('inst', 'body', 'base', 'cfg', 'active', 'tys', 'bb')


ORD_LESS, ORD_EQ, ORD_GREATER = 0, 1, 2
MAXUNROLL = 5000
SHORT = 16


class Interp:
    def __init__(self, prog, budget=6_000_000):
        self.P = prog
        self.nalloc = 0
        self.globals = {}
        self.constcache = {}
        self.tables = {}
        self.events = []
        self.stack = []
        self.steps = 0
        self.budget = budget
        self.clock = 0
        self.visited = {}
        self.loops = {}
        self.score_hook = None
        self.on_lookup = None
        self.frames = []
        self.deadline = None
        self.effects = []
        self.held_state = {}       # state that outlasts a call -> where a scenario keeps it
        import models
        self.models = models
        self.luts = {}

    # -------------------------------------------------------------- helpers
    def tick(self):
        self.clock += 1
        return self.clock

    def new_alloc(self, st, v):
        self.nalloc += 1
        st.mem[self.nalloc] = v
        return self.nalloc

    def new_global(self, v):
        self.nalloc += 1
        self.globals[self.nalloc] = v
        return self.nalloc

    def event(self, guard, msg, inst, sp):
        if guard is FALSE:
            return
        self.events.append(Event(guard, msg, inst, sp, tuple(self.stack)))

    def getmem(self, st, a):
        v = st.mem.get(a)
        if v is None:
            v = self.globals.get(a)
            if v is None:
                raise Unsupported('dangling reference')
        return v

    # -------------------------------------------------------------- types
    def sort_of(self, ty):
        t = self.P.types[ty]
        k = t['k']
        if k == 'bool':
            return 'bool'
        if k == 'char':
            return 'char'
        if k == 'int':
            return ('i' if t['signed'] else 'u', t['bits'])
        return None

    def fields_of(self, v, variant=None):
        if isinstance(v, Enum):
            return v.vs.get(variant or 0)
        return v.fields

    # -------------------------------------------------------------- constants
    def const_value(self, tree, ty):
        key = (id(tree), ty)
        v = self.constcache.get(key)
        if v is None:
            v = self._const(tree, ty)
            self.constcache[key] = v
        return v

    def _const(self, c, ty):
        t = self.P.types[ty]
        k = t['k']
        if k == 'adt' and self.held_state and t['path'].endswith('thread::LocalKey'):
            return Opaque('local key', json.dumps(c, sort_keys=True))
        if 'int' in c:
            s = self.sort_of(ty)
            if s is None:
                if k in ('ptr', 'ref'):
                    return Opaque('rawint', int(c['int']))
                if k == 'adt' and t['adt'] == 'struct':
                    nz = [f for f in t['variants'][0]['fields']]
                    if len(nz) == 1:
                        return Agg([self._const(c, nz[0]['ty'])], ty)
                raise Unsupported('integer constant of type %s' % t['name'])
            return const(int(c['int']), s)
        if 'fn' in c:
            return Fn(c['fn'])
        if 'str' in c:
            return StrRef(sconst(c['str']))
        if 'bytes' in c:
            et = ('u', 8)
            return Arr([const(b, et) for b in c['bytes']])
        if 'array' in c:
            return Arr([self._const(x, t['ty']) for x in c['array']])
        if 'agg' in c:
            if k == 'tuple':
                return Agg([self._const(x, y) for x, y in zip(c['agg'], t['tys'])], ty)
            if k == 'closure':
                return Agg([self._const(x, y) for x, y in zip(c['agg'], t['upvars'])], ty)
            if k == 'fndef':
                return Fn(t['inst'])
            if k == 'adt':
                fs = t['variants'][0]['fields'] if t['variants'] else []
                return Agg([self._const(x, f['ty']) for x, f in zip(c['agg'], fs)], ty)
            raise Unsupported('constant of type %s' % t['name'])
        if 'enum' in c:
            fs = t['variants'][c['enum']]['fields']
            return variant(c['enum'], [self._const(x, f['ty']) for x, f in zip(c['fields'], fs)], ty)
        if 'ref' in c:
            inner = c['ref']
            if 'str' in inner:
                return StrRef(sconst(inner['str']))
            it = t.get('ty')
            iv_ty = it
            tt = self.P.types[it]
            if tt['k'] == 'str':
                return StrRef(sconst(bytes(inner['bytes']).decode('utf8')))
            if tt['k'] == 'slice':
                v = Arr([self._const(x, tt['ty']) for x in inner['array']]) if 'array' in inner else \
                    Arr([const(b, self.sort_of(tt['ty'])) for b in inner['bytes']])
                return Ptr(self.new_global(v), (), (usz(0), usz(len(v.items))))
            v = self._const(inner, iv_ty)
            return Ptr(self.new_global(v), ())
        if 'static' in c:
            s = self.P.statics[c['static']]
            if s['path'].split('::')[-1] in self.tables and 'phf' in self.P.types[s['ty']]['name']:
                a = self.constcache.get(('static', c['static']))
                if a is None:
                    a = self.constcache[('static', c['static'])] = self.new_global(self.tables[s['path'].split('::')[-1]])
                return Ptr(a, ())
            if s['path'] in self.held_state:
                return Ptr(self.held_state[s['path']], ())
            if s['mut'] or not s['freeze'] or s['val'] is None:
                return Opaque('static', s['path'])
            a = self.constcache.get(('static', c['static']))
            if a is None:
                a = self.new_global(self._const(s['val'], s['ty']))
                self.constcache[('static', c['static'])] = a
            return Ptr(a, ())
        if 'float' in c:
            return Opaque('float', c['float'])
        raise Unsupported('constant %s' % str(c)[:60])

    # -------------------------------------------------------------- reading and writing
    def read_path(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if isinstance(v, Union):
            r = None
            for g, x in reversed(v.alts):
                y = self.proj(x, p)
                r = y if r is None else merge(g, y, r)
            return r
        if v is POISON:
            raise Unsupported('loop-carried value without a closed form')
        if k == 'f':
            if isinstance(v, Agg):
                return v.fields[p[1]]
            if isinstance(v, Opaque) or isinstance(v, (Vec, Map, Iter)):
                raise Unsupported('field %s of a library value %r' % (p[1], v))
            if v is UNDEF:
                return UNDEF
            raise Unsupported('field of %r' % (v,))
        if k == 'vf':
            if isinstance(v, Enum):
                fs = v.vs.get(p[1])
                if fs is None:
                    return UNDEF
                return fs[p[2]]
            if v is UNDEF:
                return UNDEF
            raise Unsupported('variant field of %r' % (v,))
        if k == 'i':
            return self.index(v, p[1])
        if k == 'c':
            if isinstance(v, Vec):
                return v.content
            if isinstance(v, Agg) and len(v.fields) == 1:
                return v.fields[0]
            raise Unsupported('contents of %r' % (v,))
        if k == 'mk' and isinstance(v, Map):
            return p[1].read(v)
        raise Unsupported('projection %s' % k)

    def index(self, v, idx):
        if isinstance(v, Arr):
            if idx.is_const:
                i = idx.data
                if 0 <= i < len(v.items):
                    return v.items[i]
                if not v.items:
                    raise Unsupported('index into an empty sequence')
                return v.items[-1]
            if not v.items:
                raise Unsupported('index into an empty sequence')
            return select(list(v.items), idx)
        if isinstance(v, Stack):
            return index_stack(v, idx)
        if isinstance(v, Ragged):
            return self.index(Arr(v.items), idx)
        if isinstance(v, OpenLog):
            raise Unsolved('reading a list while it grows')
        if isinstance(v, Log):
            return self.index(self.norm_content(v), idx)
        if v is UNDEF:
            return UNDEF
        raise Unsupported('index of %r' % (v,))

    def norm_content(self, c):
        if isinstance(c, OpenLog):
            raise Unsolved('reading a list while it grows')
        if isinstance(c, Log):
            return evened(c.entries)
        return c

    def write_path(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        k = p[0]
        if isinstance(v, Union):
            raise Unsupported('write through a joined value')
        if v is POISON:
            raise Unsupported('partial write of a loop-carried value')
        if k == 'f':
            if v is UNDEF:
                fs = {}
                fs = [UNDEF] * (p[1] + 1)
                fs[p[1]] = self.write_path(UNDEF, rest, new)
                return Agg(fs)
            if not isinstance(v, Agg):
                raise Unsupported('field write into %r' % (v,))
            fs = list(v.fields)
            while len(fs) <= p[1]:
                fs.append(UNDEF)
            fs[p[1]] = self.write_path(fs[p[1]], rest, new)
            return Agg(fs, v.ty)
        if k == 'vf':
            if not isinstance(v, Enum):
                raise Unsupported('variant write into %r' % (v,))
            vs = dict(v.vs)
            fs = list(vs.get(p[1], ()))
            while len(fs) <= p[2]:
                fs.append(UNDEF)
            fs[p[2]] = self.write_path(fs[p[2]], rest, new)
            vs[p[1]] = tuple(fs)
            return Enum(v.disc, vs, v.ty)
        if k == 'i':
            if isinstance(v, OpenLog):
                raise Unsolved('writing into a list while it grows')
            if isinstance(v, Log):
                v = self.norm_content(v)
            if isinstance(v, Ragged):
                return Ragged(self.write_path(Arr(v.items), path, new).items, v.n)
            if isinstance(v, Stack):
                if v.dim.size > 512:
                    raise Unsupported('element write into a long sequence')
                v = Arr([vrestrict(v.item, {v.dim: i}) for i in range(v.dim.size)])
            if not isinstance(v, Arr):
                raise Unsupported('element write into %r' % (v,))
            idx = p[1]
            items = list(v.items)
            if idx.is_const:
                if not 0 <= idx.data < len(items):
                    return v
                items[idx.data] = self.write_path(items[idx.data], rest, new)
            else:
                for i in range(len(items)):
                    c = eq(idx, const(i, idx.sort))
                    if c is FALSE:
                        continue
                    items[i] = merge(c, self.write_path(items[i], rest, new), items[i])
            return Arr(items)
        if k == 'c':
            if isinstance(v, Vec):
                return Vec(self.write_path(v.content, rest, new))
            if isinstance(v, Agg) and len(v.fields) == 1:
                return Agg([self.write_path(v.fields[0], rest, new)], v.ty)
        if k == 'mk' and isinstance(v, Map):
            return p[1].write(self, v, self.write_path(p[1].read(v), rest, new) if rest else new)
        raise Unsupported('write projection %s into %r' % (k, v))

    def read_ptr(self, st, p):
        if isinstance(p, Union):
            r = None
            for g, x in reversed(p.alts):
                y = self.read_ptr(st, x)
                r = y if r is None else merge(g, y, r)
            return r
        if isinstance(p, StrRef):
            return p
        if not isinstance(p, Ptr):
            if isinstance(p, DynPtr):
                return self.read_ptr(st, p.ptr)
            if p is POISON:
                raise Unsupported('loop-carried reference')
            raise Unsupported('dereference of %r' % (p,))
        if p.meta is not None:
            return SliceView(self.read_path(self.getmem(st, p.alloc), p.path), p.meta)
        return self.read_path(self.getmem(st, p.alloc), p.path)

    def write_ptr(self, st, p, new):
        if isinstance(p, Union):
            for g, x in p.alts:
                old = self.read_ptr(st, x)
                self.write_ptr(st, x, merge(g, new, old))
            return
        if not isinstance(p, Ptr):
            raise Unsupported('write through %r' % (p,))
        if p.alloc not in st.mem:
            raise Unsupported('write to a constant')
        if not p.path:
            st.mem[p.alloc] = new
        else:
            st.mem[p.alloc] = self.write_path(st.mem[p.alloc], p.path, new)

    # a place resolves to a Ptr (or a Union of them, or a StrRef)
    def resolve(self, fr, st, place):
        cur = Ptr(fr.base + place[0], ())
        if len(place) < 2:
            return cur
        down = None
        for e in place[1]:
            k = e[0]
            if k == 'deref':
                v = self.read_ptr(st, cur)
                if isinstance(v, Vec):                 # Box<[T]>
                    cur = Ptr(cur.alloc, cur.path + (('c',),), (usz(0), self.vec_len(v)))
                elif isinstance(v, Agg) and v.ty == 'box':
                    cur = Ptr(cur.alloc, cur.path + (('c',),))
                elif isinstance(v, (Ptr, StrRef, Union)):
                    cur = v
                elif isinstance(v, DynPtr):
                    cur = v
                elif isinstance(v, Str):
                    cur = StrRef(v.term)
                else:
                    raise Unsupported('dereference of %r' % (v,))
                continue
            if isinstance(cur, Union):
                if not all(isinstance(x, Ptr) for _, x in cur.alts):
                    raise Unsupported('projection of a joined reference')
                alts = []
                for g, x in cur.alts:
                    alts.append((g, self._step(fr, st, x, e, down)))
                cur = Union(alts)
            elif isinstance(cur, Ptr):
                cur = self._step(fr, st, cur, e, down)
            else:
                raise Unsupported('projection of %r' % (cur,))
            down = e[1] if k == 'downcast' else None
        return cur

    def _step(self, fr, st, cur, e, down):
        k = e[0]
        if k == 'field':
            if down is not None:
                return Ptr(cur.alloc, cur.path + (('vf', down, e[1]),))
            return Ptr(cur.alloc, cur.path + (('f', e[1]),))
        if k == 'downcast':
            return cur
        if k == 'index':
            idx = self.scalar(st.mem[fr.base + e[1]])
            if cur.meta is not None:
                idx = add(cur.meta[0], idx)
            return Ptr(cur.alloc, cur.path + (('i', idx),))
        if k == 'cindex':
            off, mn, fe = e[1], e[2], e[3]
            if fe:
                n = cur.meta[1] if cur.meta is not None else usz(mn)
                if cur.meta is None:
                    v = self.read_ptr(st, cur)
                    n = usz(len(v.items))
                idx = sub(n, usz(off))
            else:
                idx = usz(off)
            if cur.meta is not None:
                idx = add(cur.meta[0], idx)
            return Ptr(cur.alloc, cur.path + (('i', idx),))
        if k == 'subslice':
            a, b, fe = e[1], e[2], e[3]
            if cur.meta is None:
                v = self.read_ptr(st, cur)
                n = usz(len(v.items))
                base = usz(0)
            else:
                base, n = cur.meta
            end = sub(n, usz(b)) if fe else usz(b)
            return Ptr(cur.alloc, cur.path, (add(base, usz(a)), sub(end, usz(a))))
        raise Unsupported('place element ' + k)

    def vec_len(self, v):
        c = v.content
        if isinstance(c, OpenLog):
            raise Unsolved('length of a list while it grows')
        if isinstance(c, Arr):
            return usz(len(c.items))
        if isinstance(c, Stack):
            return usz(c.dim.size)
        if isinstance(c, Ragged):
            return c.n
        if isinstance(c, Log):
            r = usz(0)
            ok = True
            for e in c.entries:
                if e.time and any(isinstance(x, Dim) for x in e.time):
                    ok = False
                r = add(r, ite(e.guard, usz(1), usz(0)))
            if ok:
                return r
            return self.vec_len(Vec(compact(c.entries)))
        if hasattr(c, 'length'):
            return c.length()
        raise Unsupported('length of %r' % (c,))

    def scalar(self, v):
        if isinstance(v, Term):
            return v
        if v is POISON:
            raise Unsupported('loop-carried value without a closed form')
        if isinstance(v, Union):
            r = None
            for g, x in reversed(v.alts):
                x = self.scalar(x)
                r = x if r is None else ite(g, x, r)
            return r
        raise Unsupported('scalar expected, found %r' % (v,))

    # -------------------------------------------------------------- operands and rvalues
    def operand(self, fr, st, o):
        p = o.get('copy') or o.get('move')
        if p is not None:
            if len(p) < 2:
                return st.mem[fr.base + p[0]]
            r = self.resolve(fr, st, p)
            v = self.read_ptr(st, r)
            return v
        if 'const' in o:
            return self.const_value(o['const'], o['ty'])
        if 'rtcheck' in o:
            return TRUE if o['rtcheck'] in ('OverflowChecks', 'DebugAssertions') else FALSE
        raise Unsupported('operand %s' % list(o))

    def discriminant(self, v, ty, sort=ISIZE):
        """Discriminant value of an enum as a term of the given sort."""
        if isinstance(v, Union):
            r = None
            for g, x in reversed(v.alts):
                y = self.discriminant(x, ty, sort)
                r = y if r is None else ite(g, y, r)
            return r
        if not isinstance(v, Enum):
            raise Unsupported('discriminant of %r' % (v,))
        t = self.P.types[ty]
        ds = [wrap_py(int(x['discr']), sort) for x in t['variants']]
        return self.map_small(v.disc, lambda i: ds[i], sort, len(ds))

    def map_small(self, t, f, sort, n):
        if t.is_const:
            return const(f(t.data), sort)
        if t.op == 'ite':
            return ite(t.args[0], self.map_small(t.args[1], f, sort, n), self.map_small(t.args[2], f, sort, n))
        if all(f(i) == i for i in range(n)):
            return cast(t, sort)
        return mk('sel', sort, t, *[const(f(i), sort) for i in range(n)])

    def place_type(self, fr, place):
        ty = fr.body['locals'][place[0]]
        T = self.P.types
        var = 0
        for e in (place[1] if len(place) > 1 else []):
            k = e[0]
            if k == 'deref':
                t = T[ty]
                if t['k'] == 'adt':
                    ty = t['args'][0]
                else:
                    ty = t['ty']
            elif k == 'field':
                ty = e[2]
            elif k in ('index', 'cindex'):
                ty = T[ty]['ty']
        return ty

    def rvalue(self, fr, st, r, sp, dty=None):
        k = r['r']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k in ('ref', 'reborrow', 'rawptr'):
            p = self.resolve(fr, st, r['p'])
            return p
        if k == 'bin':
            a = self.operand(fr, st, r['a'])
            b = self.operand(fr, st, r['b'])
            return self.binop(r['op'], a, b, fr, st, sp)
        if k == 'un':
            op = r['op']
            a = self.operand(fr, st, r['o'])
            if op == 'Not':
                a = self.scalar(a)
                return mk('not', a.sort, a)
            if op == 'Neg':
                a = self.scalar(a)
                return mk('neg', a.sort, a)
            if op == 'PtrMetadata':
                return self.ptr_len(a)
            raise Unsupported('unary ' + op)
        if k == 'discr':
            p = r['p']
            v = self.read_ptr(st, self.resolve(fr, st, p))
            if v is UNDEF:
                return UNDEF    # optimised away elsewhere: whatever it is, it must not be used
            return self.discriminant(v, self.place_type(fr, p), (self.sort_of(dty) if dty is not None else None) or ISIZE)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            kk = r['k']
            if kk == 'array':
                return Arr(ops)
            if kk in ('tuple', 'closure'):
                return Agg(ops, r.get('ty'))
            if kk == 'adt':
                if r.get('enum'):
                    return variant(r['variant'], ops, r['ty'])
                if r.get('active') is not None:
                    raise Unsupported('union value')
                return Agg(ops, r['ty'])
            raise Unsupported('aggregate ' + kk)
        if k == 'cast':
            if r['k'] == 'BoxDerefTransmute':
                return self.box_content(fr, st, r['o'])
            return self.cast_value(self.operand(fr, st, r["o"]), r["k"], r["ty"], fr, r["o"], st)
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            n = r.get('n')
            if n is None or n > 4096:
                raise Unsupported('array repeat')
            return Arr([v] * n)
        raise Unsupported('rvalue ' + k)

    def box_content(self, fr, st, o):
        """The pointer inside a box: the place it owns."""
        place = o.get('copy') or o.get('move')
        if place is None or len(place) < 2:
            raise Unsupported('pointer of a box')
        proj = list(place[1][:-1])
        p = self.resolve(fr, st, [place[0], proj])
        v = self.read_ptr(st, p)
        if isinstance(v, Ptr) and v.meta is None:          # shared ownership
            return v
        if isinstance(v, DynPtr):
            return v
        if not isinstance(p, Ptr):
            raise Unsupported('pointer of a joined box')
        if isinstance(v, Vec):
            return Ptr(p.alloc, p.path + (('c',),), (usz(0), self.vec_len(v)))
        if isinstance(v, Str):
            return StrRef(v.term)
        if isinstance(v, Agg) and v.ty == 'box':
            return Ptr(p.alloc, p.path + (('c',),))
        raise Unsupported('pointer of a box %r' % (v,))

    def ptr_len(self, p):
        if isinstance(p, Ptr) and p.meta is not None:
            return p.meta[1]
        if isinstance(p, StrRef):
            return mk('strlen', USIZE, p.term)
        if isinstance(p, Ptr):
            return UNIT
        if isinstance(p, Union):
            r = None
            for g, x in reversed(p.alts):
                y = self.ptr_len(x)
                r = y if r is None else ite(g, y, r)
            return r
        raise Unsupported('length of %r' % (p,))

    def cast_value(self, v, kind, ty, fr=None, src=None, st=None):
        s = self.sort_of(ty)
        if kind in ('IntToInt',):
            if isinstance(v, Enum):
                src = self.P.types[v.ty]
                v = self.discriminant(v, v.ty)
            return cast(self.scalar(v), s)
        if 'Unsize' in kind:
            t = self.P.types[ty]
            tgt = self.P.types[t['ty']] if t['k'] in ('ref', 'ptr') else None
            if tgt is not None and tgt['k'] == 'slice':
                if isinstance(v, Ptr):
                    return v if v.meta is not None else UnsizeLater(v)
            if t['k'] == 'adt' and isinstance(v, Agg) and v.ty == 'box' and isinstance(v.fields[0], Arr):
                return Vec(v.fields[0])
            if isinstance(v, DynPtr):
                return v
            o = src.get('copy') or src.get('move')
            if t['k'] == 'adt' and t.get('args') and self.P.types[t['args'][0]]['k'] == 'dyn':
                sty = self.place_type(fr, o) if o is not None else src.get('ty')
                inner = self.P.types[sty]['args'][0]
                if isinstance(v, Agg) and v.ty == 'box':
                    return DynPtr(Ptr(self.new_alloc(st, v.fields[0])), inner)
                if isinstance(v, Ptr):
                    return DynPtr(v, inner)
                if isinstance(v, (Iter, Fn)) or norm(self.P.types[sty]['path']) == 'boxed::Box':
                    return DynPtr(Ptr(self.new_alloc(st, v)), inner)
            if tgt is not None and tgt['k'] == 'dyn':
                o = src.get('copy') or src.get('move')
                sty = self.place_type(fr, o) if o is not None else src.get('ty')
                return DynPtr(v, self.P.types[sty].get('ty'))
            raise Unsupported('unsizing to %s' % t['name'])
        if 'ClosureFnPointer' in kind:
            o = src.get('copy') or src.get('move')
            return DynPtr(Ptr(self.new_alloc(st, v)), self.place_type(fr, o) if o is not None else src.get('ty'))
        if 'ReifyFnPointer' in kind:
            return v
        if kind in ('PtrToPtr', 'Subtype') or 'MutToConst' in kind:
            return v
        if kind == 'Transmute':
            if isinstance(v, Term) and s is not None and isinstance(s, tuple) and isinstance(v.sort, tuple) and v.sort[1] == s[1]:
                return cast(v, s)
            if isinstance(v, Term) and v.sort == ('u', 32) and s == 'char':
                return cast(v, 'char')
        raise Unsupported('cast %s' % kind)

    def binop(self, op, a, b, fr, st, sp):
        if isinstance(a, (Ptr, StrRef)) or isinstance(b, (Ptr, StrRef)):
            raise Unsupported('pointer arithmetic')
        if (a is UNDEF or b is UNDEF) and op in ('Eq', 'Ne'):
            return UNDEF
        a, b = self.scalar(a), self.scalar(b)
        s = a.sort
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if b.sort[0] == 'i':
                b = cast(b, ('u', b.sort[1]))
            return mk('shl' if op.startswith('Shl') else 'shr', s, a, b)
        if a.sort != b.sort:
            raise Unsupported('operands of different sorts')
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mk_ac('mul', s, (a, b))
        if op == 'AddWithOverflow':
            return Agg([add(a, b), mk('ovf_add', 'bool', a, b)])
        if op == 'SubWithOverflow':
            return Agg([sub(a, b), mk('ovf_sub', 'bool', a, b)])
        if op == 'MulWithOverflow':
            return Agg([mk_ac('mul', s, (a, b)), mk('ovf_mul', 'bool', a, b)])
        if op == 'Div':
            return mk('div', s, a, b)
        if op == 'Rem':
            return mk('rem', s, a, b)
        if op == 'BitAnd':
            return mk_ac('and', s, (a, b))
        if op == 'BitOr':
            return mk_ac('or', s, (a, b))
        if op == 'BitXor':
            return mk_ac('xor', s, (a, b))
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return lnot(eq(a, b))
        if op == 'Lt':
            return self.less(a, b)
        if op == 'Gt':
            return self.less(b, a)
        if op == 'Le':
            return lnot(self.less(b, a))
        if op == 'Ge':
            return lnot(self.less(a, b))
        if op == 'Cmp':
            return self.ordering(self.less(a, b), eq(a, b))
        raise Unsupported('binary ' + op)

    def less(self, a, b):
        if a.sort == 'bool':
            return land(lnot(a), b)
        return lt(a, b)

    def ordering(self, less, equal):
        d = ite(less, const(0, VIDX), ite(equal, const(1, VIDX), const(2, VIDX)))
        return Enum(d, {0: (), 1: (), 2: ()}, self.P.ty_by_name.get('std::cmp::Ordering'))

    # -------------------------------------------------------------- calls
    def call(self, iid, args, st, atys=None, sp=None):
        inst = self.P.insts[iid]
        if inst['kind'] == 'virtual':
            return self.dispatch(inst, args[0], args[1:], st, sp)
        m = self.models.lookup(self, inst, args, atys)
        if m is not None:
            return m(self, inst, args, st, atys, sp)
        if inst['kind'] == 'fnptr_shim':
            f = args[0]
            if isinstance(f, Ptr):
                f = self.read_ptr(st, f)
            if not isinstance(f, (Fn, Union, DynPtr)):
                raise Unsupported('call of %r' % (f,))
            return self.call_value(f, None, list(args[1].fields), st, sp)
        body = inst['body']
        if body is None and inst.get('ctor'):
            ty, k = inst['ctor']
            return Agg(list(args), ty) if k < 0 else self.models.variant(k, list(args), ty)
        if body is None:
            raise Unsupported('no body for ' + inst['name'])
        if self.score_hook is not None and inst['crate'] == 'poker':
            v = self.score_hook.intercept(self, inst, args, st)
            if v is not None:
                return v
        if inst['closure']:
            args = [args[0]] + list(args[1].fields)     # rust-call ABI
        return self.call_body(inst, body, args, st)

    def call_body(self, inst, body, args, st):
        if len(self.stack) > 200:
            raise Unsupported('recursion')
        argc = body['argc']
        if body.get('spread') is not None:
            k = body['spread'] - 1
            args = list(args[:k]) + [Agg(args[k:])] if len(args) != argc else list(args)
        if len(args) != argc:
            raise Unsupported('argument count of ' + inst['name'])
        fr = Frame()
        fr.inst, fr.body = inst, body
        fr.base = self.nalloc + 1
        nl = len(body['locals'])
        self.nalloc += nl
        fr.cfg = self.P.cfg(inst['id'])
        fr.active = set()
        mem = st.mem
        for i in range(nl):
            mem[fr.base + i] = UNDEF
        for i, a in enumerate(args):
            mem[fr.base + 1 + i] = a
        if inst['closure']:
            # environment by reference or by value, as the body expects
            t = self.P.types[body['locals'][1]]
            if t['k'] == 'ref' and not isinstance(args[0], (Ptr, Union)):
                mem[fr.base + 1] = Ptr(self.new_alloc(st, args[0]))
            elif t['k'] != 'ref' and isinstance(args[0], Ptr):
                mem[fr.base + 1] = self.read_ptr(st, args[0])
        self.stack.append(inst['name'])
        self.frames.append(fr)
        self.visited[inst['id']] = self.visited.get(inst['id'], 0) + 1
        try:
            outs = self.run(fr, 0, st, frozenset())
        finally:
            self.stack.pop()
            self.frames.pop()
        ret = outs.get('ret')
        if not ret:
            raise Diverged(inst['name'])
        g, s = self.join(st.path, ret)
        st.mem = s.mem
        st.path = s.path
        v = st.mem[fr.base]
        for i in range(nl):
            st.mem.pop(fr.base + i, None)
        return v

    def call_value(self, f, fty, args, st, sp=None):
        """Call a callable value (closure, fn item, fn pointer, trait object or a reference to one)."""
        if isinstance(f, Union):
            return self.each_of(f, st, lambda s, x: self.call_value(x, fty, args, s, sp))
        if isinstance(f, Fn):
            return self.call(f.inst, list(args), st, None, sp)
        if isinstance(f, DynPtr):
            return self.call_value(f.ptr, f.ty, args, st, sp)
        if fty is None:
            raise Unsupported('call of %r' % (f,))
        t = self.P.types[fty]
        while t['k'] == 'ref':
            if isinstance(f, Ptr) and self.P.types[t['ty']]['k'] in ('ref', 'fndef', 'fnptr', 'dyn'):
                f = self.read_ptr(st, f)
            fty = t['ty']
            t = self.P.types[fty]
        if isinstance(f, Ptr) and f.meta is None and t['k'] in ('fnptr', 'dyn', 'adt'):
            f = self.read_ptr(st, f)
        if isinstance(f, (Union, Fn, DynPtr)):
            return self.call_value(f, fty, args, st, sp)
        if t['k'] == 'closure':
            inst = self.P.insts[t['inst']]
            return self.call_body(inst, inst['body'], [f] + list(args), st)
        if t['k'] == 'fndef':
            return self.call(t['inst'], list(args), st, None, sp)
        raise Unsupported('call of %s' % t['name'])

    def each_of(self, u, st, f):
        """f(state, x) for each alternative x of a joined value, and the join of what it gives."""
        r = UNDEF
        for g, x in u.alts:
            y = self.models.conditional(self, st, g, lambda s: f(s, x))
            if y is not None:
                r = y if r is UNDEF else merge(g, y, r)
        if r is UNDEF:
            raise Diverged('joined callee')
        return r

    def dispatch(self, inst, recv, args, st, sp):
        """Dynamic dispatch on the receiver's concrete type."""
        if isinstance(recv, Union):
            return self.each_of(recv, st, lambda s, x: self.dispatch(inst, x, args, s, sp))
        if not isinstance(recv, DynPtr) or recv.ty is None:
            raise Unsupported('dynamic dispatch ' + inst['name'])
        if re.match(r'ops::Fn(Mut|Once)?::call', inst['nt'] or ''):
            return self.call_value(recv.ptr, recv.ty, list(args[0].fields), st, sp)
        i = self.P.find_trait(inst['nt'], recv.ty)
        if i is None:
            raise Unsupported('dynamic dispatch ' + inst['name'])
        return self.call(i, [recv.ptr] + list(args), st, None, sp)

    # -------------------------------------------------------------- joins
    def join(self, path, outs):
        """outs: [(guard, State)] -> (guard, State) merged"""
        if len(outs) == 1:
            return outs[0]
        g, s = outs[-1]
        for g2, s2 in reversed(outs[:-1]):
            s = self.join2(g2, s2, s)
            g = lor(g2, g)
        s.path = land(path, g)
        return g, s

    def join2(self, c, a, b):
        if a is b:
            return a
        mem = {}
        am, bm = a.mem, b.mem
        for k, v in am.items():
            w = bm.get(k, None)
            if w is None or w is v:
                mem[k] = v
            else:
                try:
                    mem[k] = merge(c, v, w)
                except Unsupported:
                    mem[k] = POISON
        for k, w in bm.items():
            if k not in mem:
                mem[k] = w
        return State(mem, a.path)

    # -------------------------------------------------------------- control flow
    def run(self, fr, bb, st, stops, first=False):
        """Analyse from block bb until a block of `stops` (or return): {stop: [(guard, state)]}"""
        out = {}
        g = TRUE
        while True:
            if bb == 'ret' or (bb in stops and not first):
                out.setdefault(bb, []).append((g, st))
                return out
            first_now, first = first, False
            fr.bb = bb
            lp = fr.cfg.loops.get(bb)
            if lp is not None and bb not in fr.active:
                exits = self.loop(fr, bb, lp, st)
                J = fr.cfg.join_of(bb, lp[0])
                if not exits:
                    return out
                branches = exits
                p0 = st.path
            else:
                try:
                    r = self.block(fr, bb, st)
                except Diverged:
                    return out
                if r is None:
                    return out
                if isinstance(r, (int, str)):
                    bb = r
                    continue
                branches = r
                J = fr.cfg.join_of(bb)
                p0 = st.path
            if len(branches) == 1:
                c, t, s = branches[0]
                if c is not TRUE:
                    g = land(g, c)
                st, bb = s, t
                continue
            res = {}
            sub_stops = stops if J is None else stops | {J}
            for c, t, s in branches:
                for stop, l in self.run(fr, t, s, sub_stops).items():
                    for g2, s2 in l:
                        gg = land(c, g2)
                        if gg is not FALSE:
                            res.setdefault(stop, []).append((gg, s2))
            nxt = None
            for stop, l in res.items():
                g2, s2 = self.join(p0, l)
                if stop == J and J not in stops:
                    nxt = (g2, s2)
                else:
                    out.setdefault(stop, []).append((land(g, g2), s2))
            if nxt is None:
                return out
            g2, st = nxt
            if g2 is not TRUE:
                g = land(g, g2)
            bb = J

    def statements(self, fr, bb, st):
        for s in fr.body['blocks'][bb]['st']:
            k = s['s']
            if k == 'assign':
                self.steps += 1
                v = self.rvalue(fr, st, s['v'], s['sp'], self.place_type(fr, s['p']) if s['v']['r'] == 'discr' else None)
                if isinstance(v, UnsizeLater):
                    inner = self.read_ptr(st, v.ptr)
                    if isinstance(inner, UnsizedArr):
                        pass
                    n = self.arr_len(inner)
                    v = Ptr(v.ptr.alloc, v.ptr.path, (usz(0), n))
                p = s['p']
                if len(p) < 2:
                    st.mem[fr.base + p[0]] = v
                else:
                    self.write_ptr(st, self.resolve(fr, st, p), v)
            elif k == 'live':
                pass
            elif k == 'setdiscr':
                p = self.resolve(fr, st, s['p'])
                old = self.read_ptr(st, p)
                vs = dict(old.vs) if isinstance(old, Enum) else {}
                vs.setdefault(s['v'], ())
                self.write_ptr(st, p, Enum(const(s['v'], VIDX), vs, self.place_type(fr, s['p'])))
            else:
                raise Unsupported('statement ' + k)
        if self.steps > self.budget:
            raise Unsupported('analysis budget exhausted')
        if self.deadline is not None and self.steps & 63 == 0 and time.time() > self.deadline:
            raise Unsupported('analysis time exhausted')

    def arr_len(self, v):
        if isinstance(v, Arr):
            return usz(len(v.items))
        if isinstance(v, Stack):
            return usz(v.dim.size)
        if isinstance(v, Ragged):
            return v.n
        if hasattr(v, 'length'):
            return v.length()
        raise Unsupported('length of %r' % (v,))

    def block(self, fr, bb, st):
        """Returns next block, list of branches, or None (stops)."""
        self.statements(fr, bb, st)
        t = fr.body['blocks'][bb]['term']
        k = t['t']
        if k == 'goto':
            return t['to']
        if k == 'drop':
            return t['to']
        if k == 'return':
            return 'ret'
        if k == 'switch':
            return self.switch(fr, bb, st, t)
        if k == 'assert':
            c = self.scalar(self.operand(fr, st, t['c']))
            bad = lnot(c) if t['exp'] else c
            if bad is not FALSE:
                g = land(st.path, bad)
                if g is not FALSE and not self.surely_false(g):
                    self.event(g, t['msg'], fr.inst['name'], t['sp'])
                    if bad is TRUE:
                        return None
            return t['to']
        if k == 'call':
            f = self.operand(fr, st, t['f']) if 'const' not in t['f'] else self.const_value(t['f']['const'], t['f']['ty'])
            args = [self.operand(fr, st, a) for a in t['args']]
            self.steps += 1
            if isinstance(f, Fn):
                if t['to'] is None:
                    self.diverging(fr, st, f, t)
                    return None
                v = self.call(f.inst, args, st, t['atys'], t['sp'])
            else:
                v = self.call_value(f, t['f'].get('ty'), args, st, t['sp'])
            if t['to'] is None:
                return None
            d = t['d']
            if len(d) < 2:
                st.mem[fr.base + d[0]] = v
            else:
                self.write_ptr(st, self.resolve(fr, st, d), v)
            return t['to']
        if k == 'unreachable':
            return None
        raise Unsupported('terminator ' + k)

    def diverging(self, fr, st, f, t):
        inst = self.P.insts[f.inst]
        g = st.path
        if not self.surely_false(g):
            self.event(g, 'panic (%s)' % inst['np'], fr.inst['name'], t['sp'])

    _sf = {}

    def surely_false(self, g):
        if g is FALSE:
            return True
        if g is TRUE or g.syms:
            return False
        r = self._sf.get(g.id)
        if r is None:
            r = False
            try:
                n = 1
                q = quotient([g])
                for rep, _ in q.values():
                    n *= len(rep)
                if n <= 300_000:
                    r = satisfiable(g) is None
            except Unsupported:
                pass
            self._sf[g.id] = r
        return r

    def switch(self, fr, bb, st, t):
        v = self.scalar(self.operand(fr, st, t['o']))
        dead = lambda b: fr.body['blocks'][b]['term']['t'] == 'unreachable' and not fr.body['blocks'][b]['st']
        conds = []
        for val, b in t['targets']:
            if v.sort == 'bool':
                c = lnot(v) if int(val) == 0 else v
            else:
                val = int(val)
                c = eq(v, const(val, v.sort))
            conds.append((c, b))
        rest = land(*[lnot(c) for c, _ in conds])
        conds.append((rest, t['otherwise']))
        live = [(c, b) for c, b in conds if c is not FALSE and not dead(b)]
        # group equal targets
        grp = {}
        for c, b in live:
            grp[b] = lor(grp[b], c) if b in grp else c
        live = [(c, b) for b, c in grp.items()]
        out = []
        for c, b in live:
            p = land(st.path, c)
            if p is FALSE or (len(live) > 1 and self.surely_false(p)):
                continue
            out.append((c, b, p))
        if not out:
            return None
        if len(out) == 1:
            c, b, p = out[0]
            return b        # the other branches cannot be taken
        # the last branch takes whatever the others leave
        c0 = land(*[lnot(c) for c, _, _ in out[:-1]])
        out[-1] = (c0, out[-1][1], land(st.path, c0))
        res = []
        for i, (c, b, p) in enumerate(out):
            s = st.fork() if i < len(out) - 1 else State(st.mem, st.path)
            s.path = p
            res.append((c, b, s))
        return res

    # -------------------------------------------------------------- loops
    def header_iter(self, fr, h, st):
        """If the loop is driven by `Iterator::next` on one place, that place."""
        s = st.fork()
        ev = len(self.events)
        try:
            self.statements(fr, h, s)
        except Unsupported:
            del self.events[ev:]
            return None
        t = fr.body['blocks'][h]['term']
        if t['t'] != 'call' or 'const' not in t['f'] or 'fn' not in t['f']['const']:
            return None
        inst = self.P.insts[t['f']['const']['fn']]
        if inst['nt'] != 'iter::Iterator::next':
            return None
        p = self.operand(fr, s, t['args'][0])
        if not isinstance(p, Ptr) or p.alloc not in st.mem:
            return None
        v = self.read_ptr(st, p)
        pty = self.P.types[t['atys'][0]]['ty']
        return p, v, pty

    def loop(self, fr, h, lp, st):
        body, exits = lp
        key = (fr.inst['name'], fr.body['blocks'][h]['term']['sp'])
        fr.active.add(h)
        try:
            it = self.header_iter(fr, h, st)
            if it is not None:
                p, v, pty = it
                snap = (dict(st.mem), st.path, len(self.events))
                seq = None
                try:
                    seq = self.models.seq_of(self, v, pty, st, p)
                except Unsupported:
                    seq = None
                if seq is not None and self.models.driven(seq):
                    seq = None
                if seq is not None:
                    ev = len(self.events)
                    n = seq.known_len()
                    nested = any(x in fr.cfg.loops for x in body if x != h)
                    if n is None or n > (self.score_hook.unroll if self.score_hook is not None else SHORT) or (nested and self.score_hook is None):
                        try:
                            r = self.loop_dims(fr, h, lp, st, p, seq)
                            self.note_loop(key, 'iteration dimension')
                            return r
                        except Unsupported as e:
                            self.note_loop(key, 'no closed form: %s' % e)
                            del self.events[ev:]
                    elif seq.guarded():
                        r = self.loop_guarded(fr, h, lp, st, p, seq)
                        self.note_loop(key, 'unrolled')
                        return r
            r = self.loop_unroll(fr, h, lp, st)
            self.note_loop(key, 'unrolled')
            return r
        finally:
            fr.active.discard(h)

    def note_loop(self, key, how):
        self.loops[key] = how

    def collect_exits(self, path, acc):
        out = []
        for t, l in acc.items():
            g, s = self.join(path, l)
            out.append((g, t, s))
        return out

    def loop_unroll(self, fr, h, lp, st):
        body, exits = lp
        stops = frozenset(exits | {h})
        acc = {}
        g, cur = TRUE, st
        p0 = st.path
        k = 0
        t0 = time.time()
        while True:
            outs = self.run(fr, h, cur, stops, first=True)
            back = outs.pop(h, None)
            for t, l in outs.items():
                for g2, s2 in l:
                    acc.setdefault(t, []).append((land(g, g2), s2))
            if not back:
                break
            g2, cur = self.join(cur.path, back)
            g = land(g, g2)
            cur.path = land(p0, g)
            if g is FALSE or self.surely_false(cur.path):
                break
            k += 1
            if k > (max(MAXUNROLL, getattr(self.score_hook, 'unroll', 0)) if g is TRUE else 1500) or (g is not TRUE and k > 80 and time.time() - t0 > 40):
                raise Unsupported('loop at %s is not bounded by a short constant' % fr.body['blocks'][h]['term']['sp'])
        return self.collect_exits(p0, acc)

    def loop_guarded(self, fr, h, lp, st, p, seq):
        """Short loop over a sequence whose items are present under conditions."""
        body, exits = lp
        stops = frozenset(exits | {h})
        acc = {}
        g, cur = TRUE, st
        p0 = st.path
        for ig, item in seq.items(self, st):
            c = land(g, ig)
            if c is FALSE:
                continue
            s = cur.fork()
            self.write_ptr(s, p, LoopItem(item))
            s.path = land(p0, c)
            if self.surely_false(s.path):
                continue
            skip = cur
            outs = self.run(fr, h, s, stops, first=True)
            back = outs.pop(h, None)
            for t, l in outs.items():
                for g2, s2 in l:
                    acc.setdefault(t, []).append((land(c, g2), s2))
            if back:
                bg, bs = self.join(s.path, back)
                if ig is TRUE:
                    g = land(g, bg)
                    cur = bs
                else:
                    g = land(g, lor(lnot(ig), bg))
                    cur = self.join2(ig, bs, skip)
            else:
                g = land(g, lnot(ig))
                cur = skip
            if g is FALSE:
                break
        if g is not FALSE:
            self.write_ptr(cur, p, Iter(self.models.EmptySeq()))
            cur.path = land(p0, g)
            for t, l in self.run(fr, h, cur, stops, first=True).items():
                for g2, s2 in l:
                    acc.setdefault(t, []).append((land(g, g2), s2))
        return self.collect_exits(p0, acc)

    # ---- loops as recurrences
    def make_phi(self, v, out):
        """A symbolic stand-in for a loop-carried value; `out` collects (symbol, initial)."""
        if v is UNDEF or v is POISON:
            return v
        if isinstance(v, Term):
            if v.sort == 'str':
                raise Unsolved('loop-carried string')
            s = sym('phi', v.sort)
            out.append((s, v))
            return s
        if isinstance(v, Agg):
            return Agg([self.make_phi(x, out) for x in v.fields], v.ty)
        if isinstance(v, Arr) and len(v.items) <= 64:
            return Arr([self.make_phi(x, out) for x in v.items])
        if isinstance(v, Vec):
            return Vec(OpenLog(()))
        if isinstance(v, Log):
            return OpenLog(())
        if isinstance(v, Map):
            return OpenMap((), v.kind)
        if isinstance(v, Enum) and v.disc.is_const and all(not f for f in v.vs.values()):
            s = sym('phi', VIDX)
            out.append((s, v.disc))
            return Enum(s, v.vs, v.ty)
        return POISON

    def zip_phi(self, phi, new, leaf, lists):
        """Walk the stand-in and the value after one iteration together."""
        if isinstance(phi, Term):
            if not isinstance(new, Term) or new.sort != phi.sort:
                raise Unsolved('loop-carried value changes shape')
            leaf(phi, new)
        elif isinstance(phi, Agg):
            if not isinstance(new, Agg) or len(new.fields) != len(phi.fields):
                raise Unsolved('loop-carried value changes shape')
            for x, y in zip(phi.fields, new.fields):
                self.zip_phi(x, y, leaf, lists)
        elif isinstance(phi, Arr):
            if not isinstance(new, Arr) or len(new.items) != len(phi.items):
                raise Unsolved('loop-carried value changes shape')
            for x, y in zip(phi.items, new.items):
                self.zip_phi(x, y, leaf, lists)
        elif isinstance(phi, Enum):
            if not isinstance(new, Enum):
                raise Unsolved('loop-carried value changes shape')
            leaf(phi.disc, new.disc)
        elif isinstance(phi, (Vec, OpenLog, OpenMap)):
            a = phi.content if isinstance(phi, Vec) else phi
            b = new.content if isinstance(new, Vec) else new
            if type(a) is not type(b):
                raise Unsolved('list replaced in a loop')
        # UNDEF / POISON: whatever it becomes is only usable inside the iteration

    def rebuild_phi(self, init, phi, new, leafmap, fin_entry, last):
        if isinstance(phi, Term):
            return leafmap[phi]
        if isinstance(phi, Agg):
            return Agg([self.rebuild_phi(i, x, y, leafmap, fin_entry, last) for i, x, y in zip(init.fields, phi.fields, new.fields)], init.ty)
        if isinstance(phi, Arr):
            return Arr([self.rebuild_phi(i, x, y, leafmap, fin_entry, last) for i, x, y in zip(init.items, phi.items, new.items)])
        if isinstance(phi, Enum):
            if not any(new.vs.values()):
                return Enum(leafmap[phi.disc], new.vs, init.ty)
            # what the last iteration put there
            if not new.disc.is_const or last is None:
                raise Unsolved('a value put in an option in some iterations')
            return Enum(leafmap[phi.disc], {k: tuple(vmap(x, last) for x in fs) for k, fs in new.vs.items()}, init.ty)
        if isinstance(phi, Vec):
            base = as_log(init.content)
            return Vec(Log(base.entries + tuple(fin_entry(e) for e in new.content.entries)))
        if isinstance(phi, OpenLog):
            return Log(init.entries + tuple(fin_entry(e) for e in new.entries))
        if isinstance(phi, OpenMap):
            cls = OpenMap if isinstance(init, OpenMap) else Map
            return cls(init.entries + tuple(fin_entry(e) for e in new.entries), init.kind)
        return POISON

    def loop_dims(self, fr, h, lp, st, p, seq):
        body, exits = lp
        stops = frozenset(exits | {h})
        before = {k: v for k, v in st.mem.items()}
        ev0 = len(self.events)
        tick = self.tick()
        try:
            dim, guard, item = seq.lift(self, st)
        except Unsolved:
            raise
        except Unsupported as e:
            raise Unsolved(str(e))
        for k, v in before.items():
            if st.mem.get(k) is not v:
                raise Unsolved('the iterator has side effects')
        ev1 = len(self.events)
        cand = {}
        phis = []
        if dim.size == 0:
            s2 = st.fork()
            self.write_ptr(s2, p, Iter(self.models.EmptySeq()))
            acc = {}
            for t, l in self.run(fr, h, s2, stops, first=True).items():
                acc.setdefault(t, []).extend(l)
            return self.collect_exits(st.path, acc)
        for attempt in range(8):
            s0 = st.fork()
            for a, (phi, _) in cand.items():
                s0.mem[a] = phi
            self.write_ptr(s0, p, LoopItem(item))
            start = dict(s0.mem)
            s0.path = land(st.path, guard)
            del self.events[ev1:]
            outs = self.run(fr, h, s0, stops, first=True)
            back = outs.pop(h, None)
            for t, l in outs.items():
                for g2, s2 in l:
                    if g2 is not FALSE:
                        raise Unsolved('early exit')
            if not back:
                raise Unsolved('the loop body never completes')
            bg, s1 = self.join(s0.path, back)
            fresh = []
            for a in before:
                if a == p.alloc:
                    continue
                if a in cand:
                    continue
                if not same(s1.mem[a], start[a]):
                    fresh.append(a)
            if not fresh:
                break
            for a in fresh:
                out = []
                phi = self.make_phi(before[a], out)
                cand[a] = (phi, out)
                phis.extend(out)
        else:
            raise Unsolved('no fixed set of loop-carried values')
        if p.path:
            # the iterator is a field: nothing else in its allocation may change
            x = s1.mem[p.alloc]
            y = self.write_path(start[p.alloc], p.path, self.read_path(x, p.path))
            if not same(x, y):
                raise Unsolved('the iterator lives in a structure that changes')
        init = dict(phis)
        allsyms = set(init)
        pending = {}

        def leaf(phi, new):
            pending[phi] = new if guard is TRUE else ite(guard, new, phi)
        for a, (phi, _) in cand.items():
            self.zip_phi(phi, s1.mem[a], leaf, None)
        start_of, final = self.solve(pending, init, allsyms, dim, guard)
        memo = {}

        def sub_(t):
            r = subst(t, start_of, memo)
            return r

        def fin_entry(e):
            return e._replace(time=(tick, dim) + e.time, guard=land(guard, sub_(e.guard)),
                              value=None if e.value is None else vmap(e.value, sub_),
                              key=None if e.key is None else vmap(e.key, sub_))
        for ev in self.events[ev1:]:
            ev.guard = sub_(ev.guard)
        self.events[ev1:] = [ev for ev in self.events[ev1:] if not self.surely_false(ev.guard)]
        s2 = st.fork()
        last = (lambda t: restrict(sub_(t), {dim: dim.size - 1})) if guard is TRUE else None
        for a, (phi, _) in cand.items():
            s2.mem[a] = self.rebuild_phi(before[a], phi, s1.mem[a], final, fin_entry, last)
        for a, v in s1.mem.items():
            if a not in s2.mem:
                s2.mem[a] = vmap(v, sub_)
        self.write_ptr(s2, p, Iter(self.models.EmptySeq()))
        acc = {}
        for t, l in self.run(fr, h, s2, stops, first=True).items():
            acc.setdefault(t, []).extend(l)
        return self.collect_exits(st.path, acc)

    def solve(self, pending, init, allsyms, dim, guard):
        """pending: sym -> value after one iteration.  Returns (value at iteration start, final)."""
        n = dim.size
        start_of, final = {}, {}
        left = dict(pending)
        progress = True
        while left and progress:
            progress = False
            memo = {}
            for s in list(left):
                t = subst(left[s], start_of, {})
                left[s] = t
                own = t.syms & allsyms
                if t is s:
                    start_of[s] = init[s]
                    final[s] = init[s]
                elif not own:
                    start_of[s], final[s] = self.shifted(t, init[s], dim)
                elif own == {s}:
                    r = self.accumulate(s, t, init[s], dim)
                    if r is None:
                        continue
                    start_of[s], final[s] = r
                else:
                    continue
                del left[s]
                progress = True
        if left:
            self.orbit(left, init, dim, start_of, final, allsyms)
        for s in allsyms:
            if s not in start_of:
                raise Unsolved('recurrence without a closed form')
        # a value that is never reassigned keeps its initial value
        return start_of, final

    def shifted(self, t, init, dim):
        """value_i = t(i-1), value_0 = init"""
        n = dim.size
        if dim not in t.dims:
            first = mk('eq', 'bool', dimvar(dim), usz(0))
            return ite(first, init, t), t
        prev = np.maximum(np.arange(n) - 1, 0)
        tp = restrict(t, {dim: (dim, prev)})
        first = mk('eq', 'bool', dimvar(dim), usz(0))
        return ite(first, init, tp), restrict(t, {dim: n - 1})

    def accumulate(self, s, t, init, dim):
        """phi' = phi + c, phi | c, phi & c, phi * c, phi ^ c with c free of phi"""
        c = self.increment(s, t)
        if c is None:
            return None
        op, c = c
        n = dim.size
        sort = t.sort
        if c.dims - {dim} or True:
            pass
        try:
            f = force(c)
        except Unsupported:
            return None
        dims = sorted(set(f.dims) | {dim})
        shape = tuple(d.size for d in dims)
        arr = f.data if f.op == 'const' else None
        if f.op == 'const':
            a = np.broadcast_to(np.array(f.data, dtype=dtype(sort)), shape)
        else:
            fd, fa = f.data
            sh = [fa.shape[fd.index(d)] if d in fd else 1 for d in dims]
            order = [fd.index(d) for d in dims if d in fd]
            a = np.broadcast_to(np.transpose(fa, order).reshape(sh), shape)
        ax = dims.index(dim)
        fn = {'add': np.add, 'or': np.logical_or if sort == 'bool' else np.bitwise_or,
              'and': np.logical_and if sort == 'bool' else np.bitwise_and,
              'xor': np.bitwise_xor, 'mul': np.multiply}[op]
        if op == 'mul':
            a2 = a.astype(object)
            acc = np.multiply.accumulate(a2, axis=ax)
            acc = np.vectorize(lambda v: wrap_py(int(v), sort), otypes=[object])(acc).astype(dtype(sort))
        else:
            acc = fn.accumulate(a, axis=ax)
            acc = wrap_np(acc, sort)
        ident = identity(op, sort).data
        pre = np.concatenate([np.full_like(np.take(acc, [0], axis=ax), ident), np.take(acc, range(n - 1), axis=ax)], axis=ax)
        tot = np.take(acc, n - 1, axis=ax)
        od = [d for d in dims if d is not dim]
        start = mk_ac(op, sort, (init, tab(dims, pre, sort)))
        fin = mk_ac(op, sort, (init, tab(od, tot, sort) if od else const(tot.item(), sort)))
        return start, fin

    def increment(self, s, t):
        """Write t as s (op) c."""
        if t is s:
            return 'add', const(0, t.sort) if t.sort != 'bool' else FALSE
        if t.op in ('add', 'or', 'and', 'xor', 'mul') and s in t.args:
            rest = list(t.args)
            rest.remove(s)
            c = mk_ac(t.op, t.sort, rest)
            if s in c.syms:
                return None
            return t.op, c
        if t.op == 'ite' and s not in t.args[0].syms:
            a = self.increment(s, t.args[1])
            b = self.increment(s, t.args[2])
            if a is None or b is None:
                return None
            if t.args[1] is s:
                a = (b[0], identity(b[0], t.sort))
            if t.args[2] is s:
                b = (a[0], identity(a[0], t.sort))
            if a[0] != b[0]:
                return None
            return a[0], ite(t.args[0], a[1], b[1])
        return None

    def orbit(self, left, init, dim, start_of, final, allsyms):
        """Finite-state recurrences that do not depend on the iteration."""
        n = dim.size
        # solve the symbols reachable from each other together, smallest closed sets first
        todo = dict(left)
        while todo:
            done = False
            for s in list(todo):
                # closure of s
                cl = {s}
                w = [s]
                while w:
                    x = w.pop()
                    for y in todo[x].syms & allsyms:
                        if y not in cl:
                            if y not in todo:
                                raise Unsolved('recurrence over a solved value')
                            cl.add(y)
                            w.append(y)
                bits = 0
                for x in cl:
                    b = 1 if x.sort == 'bool' else x.sort[1] if isinstance(x.sort, tuple) else 99
                    bits += b
                if bits > 20 or any(todo[x].dims for x in cl) or any(not init[x].is_const for x in cl):
                    continue
                dims, m = {}, {}
                for x in cl:
                    b = 1 if x.sort == 'bool' else x.sort[1]
                    d = Dim('state', 1 << b)
                    dims[x] = d
                    if x.sort == 'bool':
                        vals = [False, True]
                    elif x.sort[0] == 'i':
                        vals = [wrap_py(v, x.sort) for v in range(1 << b)]
                    else:
                        vals = list(range(1 << b))
                    m[x] = tab([d], np.array(vals, dtype=dtype(x.sort)), x.sort)
                nxt = {x: force(subst(todo[x], m, {}), 1 << 22) for x in cl}
                cur = {x: init[x].data for x in cl}
                traj = {x: [] for x in cl}

                def enc(x, v):
                    b = 1 if x.sort == 'bool' else x.sort[1]
                    return int(v) & ((1 << b) - 1)
                for i in range(n):
                    for x in cl:
                        traj[x].append(cur[x])
                    new = {}
                    for x in cl:
                        f = nxt[x]
                        if f.is_const:
                            new[x] = f.data
                        else:
                            fd, fa = f.data
                            inv = {d: y for y, d in dims.items()}
                            new[x] = fa[tuple(enc(inv[d], cur[inv[d]]) for d in fd)].item()
                    cur = new
                for x in cl:
                    start_of[x] = tab([dim], np.array(traj[x], dtype=dtype(x.sort)), x.sort)
                    final[x] = const(cur[x], x.sort)
                    del todo[x]
                # what depended on them may now be expressible
                rest = {}
                for x in todo:
                    rest[x] = subst(todo[x], start_of, {})
                todo.clear()
                sub_left = rest
                if sub_left:
                    a, b = self.solve_rest(sub_left, init, allsyms, dim, start_of, final)
                done = True
                break
            if not done:
                raise Unsolved('recurrence without a closed form')

    def solve_rest(self, rest, init, allsyms, dim, start_of, final):
        left = dict(rest)
        progress = True
        while left and progress:
            progress = False
            for s in list(left):
                t = subst(left[s], start_of, {})
                left[s] = t
                own = t.syms & allsyms
                if t is s:
                    start_of[s] = final[s] = init[s]
                elif not own:
                    start_of[s], final[s] = self.shifted(t, init[s], dim)
                elif own == {s}:
                    r = self.accumulate(s, t, init[s], dim)
                    if r is None:
                        continue
                    start_of[s], final[s] = r
                else:
                    continue
                del left[s]
                progress = True
        if left:
            self.orbit(left, init, dim, start_of, final, allsyms)
        return None, None

    # -------------------------------------------------------------- lookup tables
    def finalize_map(self, m):
        """A Map as columns of exact partial functions of its key."""
        if isinstance(m, OpenMap):
            raise Unsolved('reading a table while it is filled')
        key = tuple(e.value is not None and id(e) for e in m.entries)
        r = self.luts.get(key)
        if r is None:
            r = MapLut(m)
            self.luts[key] = r
        return r


class UnsizeLater:
    def __init__(self, ptr):
        self.ptr = ptr


class UnsizedArr:
    pass


class SliceView(V):
    """The target of a slice reference, when read as a value."""
    __slots__ = ('content', 'meta')

    def __init__(self, content, meta):
        self.content = content
        self.meta = meta


# ------------------------------------------------------------------ lists known by push sites
def _slots(entries):
    """All (entry, own-dimension indices) in program order."""
    rows = []
    width = 0
    for n, e in enumerate(entries):
        own = [x for x in e.time if isinstance(x, Dim)]
        sizes = [d.size for d in own]
        idx = np.indices(sizes).reshape(len(own), -1) if own else np.zeros((0, 1), dtype=int)
        cnt = idx.shape[1]
        cols = []
        o = 0
        for x in e.time:
            if isinstance(x, Dim):
                cols.append(idx[o])
                o += 1
            else:
                cols.append(np.full(cnt, x))
        if not e.time:
            cols.append(np.full(cnt, -1))
        rows.append((n, own, idx, cols, cnt))
        width = max(width, len(cols))
    ent = np.concatenate([np.full(r[4], r[0]) for r in rows]) if rows else np.zeros(0, int)
    loc = np.concatenate([np.arange(r[4]) for r in rows]) if rows else np.zeros(0, int)
    keys = []
    for w in range(width):
        keys.append(np.concatenate([r[3][w] if w < len(r[3]) else np.full(r[4], 0) for r in rows]))
    order = np.lexsort([ent] + keys[::-1]) if rows else np.zeros(0, int)
    return rows, ent[order], loc[order]


def _guard_matrix(entries, rows):
    """guard per slot, with outer dimensions leading: returns (outer dims, list per entry of arrays)"""
    outer = set()
    fs = []
    for n, e in enumerate(entries):
        own = rows[n][1]
        try:
            f = force(e.guard)
        except Unsupported as ex:
            raise Unsolved('list with undetermined contents: %s' % ex)
        fs.append(f)
        outer |= set(f.dims) - set(own)
    outer = sorted(outer)
    oshape = tuple(d.size for d in outer)
    out = []
    for n, e in enumerate(entries):
        own, f = rows[n][1], fs[n]
        if f.is_const:
            out.append(np.full(oshape + (rows[n][4],), f.data, dtype=bool))
            continue
        dims = outer + own
        fd, fa = f.data
        order = [fd.index(d) for d in dims if d in fd]
        sh = [d.size if d in fd else 1 for d in dims]
        a = np.broadcast_to(np.transpose(fa, order).reshape(sh), tuple(d.size for d in dims))
        out.append(a.reshape(oshape + (-1,)))
    return outer, out


RAGGED = 64


def evened(entries):
    """The list as one of known length, or padded to its greatest length."""
    if len(entries) <= RAGGED and all(not any(isinstance(x, Dim) for x in e.time) for e in entries) \
            and any(not e.guard.is_const for e in entries):
        if not any(e.guard.syms for e in entries):
            try:
                return compact(entries)
            except Unsolved as e:
                if 'length varies' not in str(e):
                    raise
        ents = [e for e in entries if e.guard is not FALSE]
        items = []
        cnt, ranks = usz(0), []
        for e in ents:
            ranks.append(cnt)
            cnt = add(cnt, ite(e.guard, usz(1), usz(0)))
        for k in range(len(ents)):
            v = None
            for e, r in list(zip(ents, ranks))[:k - 1 if k else None:-1]:
                here = land(e.guard, eq(r, usz(k)))
                if here is not FALSE:
                    v = e.value if v is None else merge(here, e.value, v)
            if v is None:
                break
            items.append(v)
        return Ragged(items, cnt)
    return compact(entries)


def compact(entries):
    """Turn push sites into an Arr (short) or a Stack (long)."""
    if all(e.guard is TRUE and not any(isinstance(x, Dim) for x in e.time) for e in entries):
        return Arr([e.value for e in entries])
    rows, ent, loc = _slots(entries)
    if not any(isinstance(x, Dim) for e in entries for x in e.time):
        # no loop: a few pushes under conditions
        if all(e.guard.is_const for e in entries):
            return Arr([e.value for e in entries if e.guard.data])
    outer, gm = _guard_matrix(entries, rows)
    G = np.empty(tuple(d.size for d in outer) + (len(ent),), dtype=bool)
    for n in range(len(entries)):
        sel = ent == n
        G[..., sel] = gm[n][..., loc[sel]]
    flat = G.reshape(-1, len(ent))
    counts = flat.sum(axis=1)
    if counts.size and not np.all(counts == counts[0]):
        raise Unsolved('list whose length varies')
    m = int(counts[0]) if counts.size else 0
    pos = np.argsort(~flat, axis=1, kind='stable')[:, :m]          # slot of the k-th element
    dim = Dim('elem', m)
    shape = tuple(d.size for d in outer) + (m,)
    slot = pos.reshape(shape)
    which = ent[slot]
    local = loc[slot]
    dims = outer + [dim]
    value = None
    for n, e in enumerate(entries):
        here = which == n
        if not here.any():
            continue
        own, idx = rows[n][1], rows[n][2]
        lo = np.where(here, local, 0)
        env = {d: (tuple(dims), idx[j][lo]) for j, d in enumerate(own)}
        v = vrestrict(e.value, env)
        value = v if value is None else merge(tab(dims, here, 'bool'), v, value)
    if m == 0:
        return Arr(())
    st = Stack(dim, value)
    if m <= SHORT:
        return Arr([vrestrict(value, {dim: i}) for i in range(m)])
    return st


class MapLut:
    """Columns of a lookup table: key -> every scalar leaf of the value."""

    def __init__(self, m):
        entries = m.entries
        self.size = 0
        rows, ent, loc = _slots(entries)
        keys = np.zeros(len(ent), dtype=np.int64)
        live = np.zeros(len(ent), dtype=bool)
        self.ksort = None
        per = []
        for n, e in enumerate(entries):
            own, idx = rows[n][1], rows[n][2]
            env = {d: idx[j] for j, d in enumerate(own)}
            k = e.key
            if not isinstance(k, Term):
                raise Unsupported('table key of %r' % (k,))
            self.ksort = k.sort
            extra = (k.dims | e.guard.dims | vdims(e.value)) - set(own)
            if extra or k.syms or e.guard.syms or vsyms(e.value):
                raise Unsupported('table that depends on inputs')
            cnt = rows[n][4]
            ka = np.broadcast_to(evaluate(k, env), (cnt,)).astype(np.int64)
            ga = np.broadcast_to(evaluate(e.guard, env), (cnt,))
            sel = ent == n
            keys[sel] = ka[loc[sel]]
            live[sel] = ga[loc[sel]]
            per.append((sel, env, cnt))
        self.shape = None
        shape = None
        for e in entries:
            shape = e.value if shape is None else unify(shape, e.value)
        self.template = shape
        # the last insertion of a key wins
        idx = np.nonzero(live)[0]
        self.insertions = len(idx)
        ks = keys[idx]
        order = np.lexsort([idx, ks])
        ks2, idx2 = ks[order], idx[order]
        last = np.append(ks2[1:] != ks2[:-1], True) if len(ks2) else np.zeros(0, bool)
        self.keys = ks2[last]
        win = idx2[last]
        self.size = len(self.keys)
        self.cols = []
        paths = list(leafpaths(shape)) if shape is not None else []
        for i, (path, sort) in enumerate(paths):
            col = np.zeros(len(ent), dtype=dtype(sort))
            for n, e in enumerate(entries):
                sel, env, cnt = per[n]
                t = leaf_at(e.value, path)
                if t is None:
                    continue
                a = np.broadcast_to(evaluate(t, env), (cnt,))
                col[sel] = a[loc[sel]]
            self.cols.append(Lut(self.keys, col[win], sort, 'column%d' % i))
        self.has = Lut(self.keys, np.ones(len(self.keys), dtype=bool), 'bool', 'keys')

    def get(self, k):
        it = iter(self.cols)
        if self.template is None:
            return None
        return fill(self.template, lambda sort: mk('lutget', sort, k, data=next(it)))

    def contains(self, k):
        return mk('luthas', 'bool', k, data=self.has)


def unify(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if a.sort != b.sort:
            raise Unsupported('table values of different sorts')
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields):
        return Agg([unify(x, y) for x, y in zip(a.fields, b.fields)], a.ty)
    if isinstance(a, Enum) and isinstance(b, Enum):
        vs = {}
        for k in sorted(set(a.vs) | set(b.vs)):
            if k in a.vs and k in b.vs:
                vs[k] = tuple(unify(x, y) for x, y in zip(a.vs[k], b.vs[k]))
            else:
                vs[k] = a.vs.get(k, b.vs.get(k))
        return Enum(a.disc, vs, a.ty)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.items) == len(b.items):
        return Arr([unify(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, StrRef) and isinstance(b, StrRef):
        return a
    raise Unsupported('table values of different shapes')


def leafpaths(v, pre=()):
    if isinstance(v, Term):
        yield pre, v.sort
    elif isinstance(v, Agg):
        for i, x in enumerate(v.fields):
            yield from leafpaths(x, pre + (('f', i),))
    elif isinstance(v, Enum):
        yield pre + (('d',),), VIDX
        for k in sorted(v.vs):
            for i, x in enumerate(v.vs[k]):
                yield from leafpaths(x, pre + (('vf', k, i),))
    elif isinstance(v, Arr):
        for i, x in enumerate(v.items):
            yield from leafpaths(x, pre + (('a', i),))
    elif isinstance(v, StrRef):
        yield pre + (('s',),), 'str'
    else:
        raise Unsupported('table value %r' % (v,))


def leaf_at(v, path):
    for p in path:
        if p[0] == 'f':
            v = v.fields[p[1]]
        elif p[0] == 'd':
            v = v.disc
        elif p[0] == 'vf':
            if p[1] not in v.vs:
                return None
            v = v.vs[p[1]][p[2]]
        elif p[0] == 'a':
            v = v.items[p[1]]
        elif p[0] == 's':
            v = v.term
    return v


def fill(v, f):
    if isinstance(v, Term):
        return f(v.sort)
    if isinstance(v, Agg):
        return Agg([fill(x, f) for x in v.fields], v.ty)
    if isinstance(v, Enum):
        d = f(VIDX)
        return Enum(d, {k: tuple(fill(x, f) for x in v.vs[k]) for k in sorted(v.vs)}, v.ty)
    if isinstance(v, Arr):
        return Arr([fill(x, f) for x in v.items])
    if isinstance(v, StrRef):
        return StrRef(f('str'))
    raise Unsupported('table value %r' % (v,))
