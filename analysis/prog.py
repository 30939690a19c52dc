"""The program: monomorphic MIR dumped by the driver, plus control-flow facts per body."""
import json


def norm(path):
    """Library paths are printed under std, core or alloc depending on re-exports."""
    if path is None:
        return None
    for a in ('std::', 'core::', 'alloc::'):
        path = path.replace('<' + a, '<').replace(' ' + a, ' ').replace('&' + a, '&').replace('(' + a, '(')
        if path.startswith(a):
            path = path[len(a):]
    return path


class Cfg:
    def __init__(self, body):
        B = body['blocks']
        n = len(B)
        self.n = n
        succ = []
        for b in B:
            t = b['term']
            k = t['t']
            if b['cl']:
                s = []
            elif k in ('goto', 'drop', 'assert'):
                s = [t['to']]
            elif k == 'switch':
                s = list(dict.fromkeys([x[1] for x in t['targets']] + [t['otherwise']]))
            elif k == 'call':
                s = [t['to']] if t['to'] is not None else []
            else:
                s = []
            succ.append(s)
        dead = set(i for i in range(n) if B[i]['term']['t'] == 'unreachable')
        succ = [[x for x in s if x not in dead] for s in succ]
        self.succ = succ
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for x in s:
                pred[x].append(i)
        self.pred = pred
        self.exits = [i for i in range(n) if B[i]['term']['t'] in ('return', 'tailcall')]
        # reachable from entry
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        rpo = order[::-1]
        self.rpo = rpo
        self.idom = self._dom(rpo, pred, 0)
        # post-dominators on the reversed graph, restricted to blocks that can return
        V = n
        can = set(self.exits)
        w = list(self.exits)
        while w:
            x = w.pop()
            for p in pred[x]:
                if p not in can:
                    can.add(p)
                    w.append(p)
        rs = {V: [e for e in self.exits if e in seen]}
        for i in can:
            rs[i] = [p for p in pred[i] if p in seen]
        rp = {i: [s for s in succ[i] if s in can] for i in can}
        for e in self.exits:
            rp[e] = rp.get(e, []) + [V]
        order, seen2 = [], {V}
        st = [(V, iter(rs[V]))]
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen2 and y in can:
                    seen2.add(y)
                    st.append((y, iter(rs.get(y, []))))
                    break
            else:
                order.append(x)
                st.pop()
        self.ipdom = self._dom(order[::-1], rp, V)
        self.V = V
        self.can_return = can
        # natural loops
        loops = {}
        for x in rpo:
            for y in succ[x]:
                if self.dominates(y, x):
                    body = loops.setdefault(y, {y})
                    w = [x]
                    while w:
                        z = w.pop()
                        if z in body:
                            continue
                        body.add(z)
                        w.extend(p for p in pred[z] if p in seen)
        self.loops = {}
        for h, bd in loops.items():
            ex = set()
            for x in bd:
                for y in succ[x]:
                    if y not in bd:
                        ex.add(y)
            self.loops[h] = (bd, ex)

    def _dom(self, rpo, pred, root):
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root:
                    continue
                new = None
                for p in pred[b] if not isinstance(pred, dict) else pred.get(b, []):
                    if p in idom and p in idx:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.idom:
                return False
            c = self.idom[b]
            if c == b:
                return False
            b = c

    def join_of(self, b, avoid=()):
        """Nearest strict post-dominator outside `avoid` (None = function exit)."""
        x = self.ipdom.get(b)
        while x is not None and x != self.V and x in avoid:
            x = self.ipdom.get(x)
        return None if x == self.V else x


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.insts = d['insts']
        self.types = d['types']
        self.statics = d['statics']
        self.roots = d['roots']
        for i, x in enumerate(self.insts):
            x['id'] = i
            x['np'] = norm(x['path'])
            x['nt'] = norm(x['trait_item'])
        self._cfg = {}
        self.by_trait = {}
        for x in self.insts:
            if x['trait_item'] and x['self_ty'] is not None:
                self.by_trait.setdefault((x['nt'], x['self_ty']), []).append(x['id'])
        self.ty_by_name = {}
        for i, t in enumerate(self.types):
            self.ty_by_name.setdefault(t['name'], i)

    def cfg(self, i):
        c = self._cfg.get(i)
        if c is None:
            c = self._cfg[i] = Cfg(self.insts[i]['body'])
        return c

    def find_trait(self, item, ty):
        l = self.by_trait.get((item, ty))
        if l and len(l) > 1:            # PartialEq<Other> beside PartialEq<Self>
            for i in l:
                b = self.insts[i]['body']
                if b is not None and b['argc'] == 2 and b['locals'][1] == b['locals'][2]:
                    return i
        return l[0] if l else None

    def peel(self, ty):
        t = self.types[ty]
        while t['k'] in ('ref', 'ptr'):
            ty = t['ty']
            t = self.types[ty]
        return ty

    def is_adt(self, ty, path):
        t = self.types[ty]
        return t['k'] == 'adt' and norm(t['path']) == path
