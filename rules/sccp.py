"""Sparse conditional propagation: one pass over a function under an assumption.

atom(i, val) may give the value of an instruction: ('c', n), any other tuple
(an opaque token) or None for the default. Values form a flat lattice; a branch
whose condition is a constant takes one edge, every other branch takes both.
"""
from fk import *

TOP = 'T'


class Cond:
    def __init__(self, fn, atom=lambda i, val: None, unwind=False):
        self.fn, self.atom, self.unwind = fn, atom, unwind
        self.v = {}
        self.edges = set()
        self.blocks = set()
        self.ret = None
        self.throws = False
        self.run()

    def run(self):
        fn = self.fn
        b0 = fn.block_of[fn.entry]
        work = [(None, b0)]
        n = 0
        dirty = True
        while dirty:
            dirty = False
            n += 1
            if n > 60:
                raise AnchorError('propagation does not settle in ' + fn.short())
            self.edges, seen = set(), set()
            work = [b0]
            before = dict(self.v)
            self.ret, self.throws = None, False
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                for i in fn.blocks[b]:
                    self.eval(i, b)
                for t in self.targets(fn.blocks[b][-1]):
                    if (b, t) not in self.edges:
                        self.edges.add((b, t))
                        seen.discard(t) if any(i['op'] == 'phi' for i in fn.blocks[t]) else None
                    if t not in seen:
                        work.append(t)
            self.blocks = seen
            dirty = before != self.v
        return self

    def targets(self, i):
        op = i['op']
        if op == 'br':
            if 'cond' not in i:
                return i['succ']
            c = self.val(i['cond'])
            if isinstance(c, tuple) and c[0] == 'c':
                return [i['succ'][0 if c[1] & 1 else 1]]
            return i['succ']
        if op == 'switch':
            c = self.val(i['cond'])
            if isinstance(c, tuple) and c[0] == 'c' and 'cases' in i:
                for k, case in enumerate(i['cases']):
                    if case == c[1]:
                        return [i['succ'][k + 1]]
                return [i['succ'][0]]
            return i['succ']
        if op == 'invoke':
            out = [] if noreturn(i) else [i['normal']]
            if (self.unwind or noreturn(i)) and may_throw(i):
                out.append(i['unwind'])
            return out
        if op == 'ret':
            v = self.val(i['args'][0]) if i.get('args') else ('void',)
            self.ret = v if self.ret in (None, v) else TOP
        if op == 'resume':
            self.throws = True
        return []

    def set(self, i, v):
        old = self.v.get(i['id'])
        if old is None or old == v:
            self.v[i['id']] = v
        else:
            self.v[i['id']] = TOP

    def val(self, o):
        if 'c' in o:
            return ('c', o['c'] & 1 if o.get('w') == 1 else o['c'])
        if 'null' in o or 'zero' in o:
            return ('c', 0)
        if 'f' in o:
            return ('f', o['f'])
        if 'p' in o:
            return ('arg', o['p'])
        if 'g' in o:
            return ('g', o['d'])
        if 'ce' in o:
            if o['ce'] == 'getelementptr':
                return self.val(o['args'][0])
            return TOP
        if 'undef' in o:
            return None
        if 'i' in o:
            return self.v.get(o['i'])
        return TOP

    def eval(self, i, b):
        op = i['op']
        fn = self.fn
        if op in ('br', 'switch', 'ret', 'resume', 'unreachable', 'store', 'fence', 'landingpad'):
            return
        r = self.atom(i, self.val)
        if r is not None:
            self.set(i, r)
            return
        if op == 'phi':
            vs = set()
            for inc in i['inc']:
                if (inc['b'], b) in self.edges:
                    x = self.val(inc['v'])
                    if x is not None:
                        vs.add(x)
            if vs:
                self.v[i['id']] = vs.pop() if len(vs) == 1 else TOP
            return
        if op in ('freeze', 'bitcast', 'addrspacecast'):
            v = self.val(i['args'][0])
            if v is not None:
                self.set(i, v)
            return
        if op == 'select':
            c = self.val(i['args'][0])
            if c is None:
                return
            a, b2 = self.val(i['args'][1]), self.val(i['args'][2])
            if isinstance(c, tuple) and c[0] == 'c':
                v = a if c[1] & 1 else b2
            else:
                v = a if a == b2 else TOP
            if v is not None:
                self.set(i, v)
            return
        args = [self.val(a) for a in i.get('args', [])]
        if op in ('zext', 'sext', 'trunc') and args[0] is not None:
            v = args[0]
            if isinstance(v, tuple) and v[0] == 'c':
                n = v[1]
                if op == 'trunc' and i.get('ty') == 'i1':
                    n &= 1
                self.set(i, ('c', n))
            else:
                self.set(i, TOP)
            return
        consts = [a[1] for a in args if isinstance(a, tuple) and a[0] == 'c']
        full = len(consts) == len(args) == 2
        if op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
            if full:
                x, y = consts
                n = {'xor': x ^ y, 'and': x & y, 'or': x | y, 'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                self.set(i, ('c', n & 1 if i.get('ty') == 'i1' else n))
                return
            if op == 'and' and 0 in consts:
                self.set(i, ('c', 0))
                return
            if op == 'or' and i.get('ty') == 'i1' and 1 in consts:
                self.set(i, ('c', 1))
                return
            if op in ('and', 'or') and i.get('ty') == 'i1' and len(args) == 2 and args[0] == args[1] and args[0] not in (None, TOP):
                self.set(i, args[0])
                return
        if op == 'icmp' and full:
            x, y = consts
            p = i['pred']
            if p[0] == 'u' and (x < 0 or y < 0):
                self.set(i, TOP)
                return
            n = {'eq': x == y, 'ne': x != y}.get(p)
            if n is None:
                n = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            self.set(i, ('c', int(n)))
            return
        if any(a is None for a in args) and args:
            return
        self.set(i, TOP)

    def reached(self, iid):
        return self.fn.block_of[iid] in self.blocks
