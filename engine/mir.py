"""Loads the MIR that mirx exported from /repo's current source."""
import json, struct, re
from fractions import Fraction

class Fn:
    __slots__ = ('id', 'name', 'argc', 'spread', 'locals', 'names', 'targs', 'file', 'line', 'blocks', 'ipdom', 'live', 'borrowed', 'local')
    def __init__(self, d):
        for k in ('id', 'name', 'argc', 'spread', 'locals', 'names', 'targs', 'file', 'line', 'blocks'): setattr(self, k, d[k])
        self.ipdom = None; self.live = None; self.borrowed = None
        self.local = not self.file.startswith('/')
    def succ(self, b, unwind=False):
        t = self.blocks[b]['t']; k = t['t']
        if k == 'goto' or k == 'drop' or k == 'assert': return [t['b']]
        if k == 'switch': return [x[1] for x in t['br']] + [t['else']]
        if k == 'call': return [] if t['b'] is None else [t['b']]
        if k == 'ret': return [-1]
        return []
    def analyse(self):
        if self.ipdom is not None: return
        n = len(self.blocks)
        succ = [self.succ(b) for b in range(n)]
        # blocks that can reach the return
        pred = {b: [] for b in range(-1, n)}
        for b in range(n):
            for s in succ[b]: pred[s].append(b)
        reach = {-1}; st = [-1]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in reach: reach.add(p); st.append(p)
        # post-dominators over the blocks that can return (iterative, reverse graph)
        order = []; seen = set()
        def dfs(root):
            stack = [(root, iter(pred[root]))]; seen.add(root)
            while stack:
                x, it = stack[-1]
                for p in it:
                    if p not in seen and p in reach:
                        seen.add(p); stack.append((p, iter(pred[p]))); break
                else:
                    order.append(x); stack.pop()
        dfs(-1)
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        ip = {-1: -1}
        ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = ip[a]
                while idx[b] > idx[a]: b = ip[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for s in succ[b]:
                    if s in ip and s in idx: new = s if new is None else inter(s, new)
                if new is not None and ip.get(b) != new: ip[b] = new; ch = True
        self.ipdom = ip
        # liveness
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; borrowed = set()
        def upl(p, b):
            l, pr = p
            if l not in dfn[b]: use[b].add(l)
            for e in pr:
                if e[0] == 'i' and e[1] not in dfn[b]: use[b].add(e[1])
        def uop(o, b):
            if o['o'] in ('copy', 'move'): upl(o['p'], b)
        for b in range(n):
            blk = self.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    r = s[2]; k = r['r']
                    if k in ('use', 'cast', 'repeat', 'un'): uop(r['o'] if k != 'un' else r['a'], b)
                    elif k in ('ref', 'discr', 'len'):
                        upl(r['p'], b)
                        if k == 'ref' and not any(e[0] == 'd' for e in r['p'][1]): borrowed.add(r['p'][0])
                    elif k in ('bin', 'cbin'): uop(r['a'], b); uop(r['b'], b)
                    elif k == 'agg':
                        for o in r['os']: uop(o, b)
                    l, pr = s[1]
                    if pr: upl(s[1], b)
                    else: dfn[b].add(l)
                elif s[0] == 'sd': upl(s[1], b)
                elif s[0] == 'cno':
                    for o in s[1:4]: uop(o, b)
            t = blk['t']; k = t['t']
            if k == 'switch': uop(t['d'], b)
            elif k == 'assert': uop(t['c'], b)
            elif k == 'ret':
                if 0 not in dfn[b]: use[b].add(0)
            elif k == 'call':
                for o in t['a']: uop(o, b)
                if 'op' in t['f']: uop(t['f']['op'], b)
                l, pr = t['d']
                if pr: upl(t['d'], b)
                else: dfn[b].add(l)
        livein = {b: set() for b in range(-1, n)}
        livein[-1] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in succ[b]: out |= livein[s]
                new = use[b] | (out - dfn[b])
                if new != livein[b]: livein[b] = new; ch = True
        self.live = livein; self.borrowed = borrowed

class Mir:
    def __init__(self, path, extra=None):
        d = json.load(open(path))
        self.types = d['types']; self.allocs = d['allocs']
        self.fns = {}; self.byname = {}
        for f in d['fns']:
            F = Fn(f); self.fns[F.id] = F; self.byname.setdefault(F.name, F)
        self.consts = {c['name']: c['v'] for c in d['consts']}
        self.tyname = {}
        for i, t in enumerate(self.types): self.tyname.setdefault(t['n'], i)
    def fn(self, suffix):
        """the local function whose path ends in `suffix` (None if it is gone)"""
        if suffix in self.byname: return self.byname[suffix]
        c = [f for n, f in self.byname.items() if n.endswith('::' + suffix) and f.local]
        return c[0] if len(c) == 1 else None
    def ty(self, suffix):
        if suffix in self.tyname: return self.tyname[suffix]
        c = [i for n, i in self.tyname.items() if n.endswith('::' + suffix) and self.types[i]['k'] in ('struct', 'enum')]
        c = [i for i in c if '<' not in self.types[i]['n']]
        return c[0] if c else None
    def const_f64(self, name):
        for n, v in self.consts.items():
            if n == name or n.endswith('::' + name):
                return struct.unpack('<d', bytes.fromhex(v['a']['b']))[0]
        return None
    def const_int(self, name):
        for n, v in self.consts.items():
            if n == name or n.endswith('::' + name):
                return int.from_bytes(bytes.fromhex(v['a']['b']), 'little')
        return None
