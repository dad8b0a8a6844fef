"""Effect summaries: what a function leaves in memory, in program order.

Places are byte-exact linear forms over a few symbols (parameters, fresh
allocations, initial contents), so field names and the number of helper functions
do not matter. A loop is summarised by its trip count as one fill or one copy of a
range of bytes. Vectors are known by their abstract content (n elements, all v).
Only normal control flow is followed; a place written on some paths only has the
content ('join', ...) afterwards.
"""
from fractions import Fraction

from common import *
from fk import *  # noqa

STD_RANGE = r'\bstd::(copy|copy_n|fill|fill_n|uninitialized_copy|uninitialized_fill|__uninitialized_fill)<'


def K(c):
    return Lin({None: Fraction(c)}) if c else Lin()


def S(*s):
    return Lin({tuple(s): Fraction(1)})


def fz(l):
    return tuple(sorted(((k, v) for k, v in l.items()), key=repr))


def uz(t):
    return Lin(dict(t))


def const_of(l):
    """the number when the form is constant"""
    if all(k is None for k in l):
        return l.get(None, Fraction(0))
    return None


def single(l):
    """the symbol when the form is exactly one symbol"""
    if len(l) == 1:
        (k, v), = l.items()
        if k is not None and v == 1:
            return k
    return None


def mentions(x, pred):
    if isinstance(x, Lin):
        return any(mentions(k, pred) for k in x)
    if isinstance(x, tuple):
        return pred(x) or any(mentions(y, pred) for y in x)
    return False


def subst(l, sym, by):
    """l with the symbol replaced (top level only)"""
    if sym in l:
        c = l[sym]
        r = Lin(l)
        del r[sym]
        return r.add(by, c)
    return l


class Effect:
    def __init__(self, kind, iid, **kw):
        self.kind, self.iid = kind, iid
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s@%d(%s)' % (self.kind, self.iid, ', '.join('%s=%s' % (k, show(v)) for k, v in self.__dict__.items() if k not in ('kind', 'iid', 'env')))


def show(v):
    if isinstance(v, Lin):
        if not v:
            return '0'
        return ' + '.join(('' if c == 1 or k is None else '%s*' % c) + (str(c) if k is None else show(k)) for k, c in sorted(v.items(), key=lambda q: (q[0] is None, repr(q[0]))))
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        if v[0] == 'ld':
            return '[%s]' % show(uz(v[1]))
        if v[0] == 'global':
            return '@' + str(v[1])
        if v[0] == 'arg':
            return str(v[2])
        if v[0] == 'gep':
            return show(uz(v[1]))
        return '%s(%s)' % (v[0], ','.join(show(x) for x in v[1:]))
    return str(v)


VEC_READ = ('size', 'begin', 'end', 'empty', 'operator[]', 'at', 'front', 'back', 'capacity', 'data', 'reserve', 'shrink_to_fit', 'cbegin', 'cend')


def vec_member(n):
    """is the function a member of std::vector?"""
    d, last = 0, 0
    for k, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == ' ' and d == 0:
            last = k + 1
        elif c == '(' and d == 0:
            return n.startswith('std::vector<', last)
    return False


class Effects:
    """self.effects: list of Effect in reverse post order; self.at(iid): memory before an instruction"""

    def __init__(self, fn, unwind=False, init=None, call=None):
        self.fn, self.unwind = fn, unwind
        self.callhook = call
        self.effects = []
        self.vals = {}
        self.envs = {}
        self.loops = {}
        self.problems = []
        self.order = self._rpo()
        self._find_loops()
        self.order = self._rpo(True)
        self.pos = {b: k for k, b in enumerate(self.order)}
        self.late = {}
        self.init = dict(init or {})
        self._run()

    # ---- control flow
    def bsuccs(self, b):
        out = []
        for kind, t in self.fn.succs(self.fn.blocks[b][-1]['id']):
            if t in (EXC, RET) or (kind == 'unwind' and not self.unwind):
                continue
            out.append(self.fn.block_of[t])
        return out

    def _rpo(self, inner_first=False):
        seen, out = set(), []

        def succ(b):
            ss = self.bsuccs(b)
            if inner_first:
                # ways out of loops are visited first, so that the loop comes before what follows it
                ss = sorted(ss, key=lambda s: sum(1 for body, _ in self.loops.values() if b in body and s in body))
            return ss
        st = [(0, iter(succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    st.append((n, iter(succ(n))))
                    break
            else:
                st.pop()
                out.append(b)
        out.reverse()
        return out

    def _find_loops(self):
        self.preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.bsuccs(b):
                self.preds[s].append(b)
        dom = {b: set(self.order) for b in self.order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                n = set.intersection(*[dom[p] for p in self.preds[b]]) | {b}
                if n != dom[b]:
                    dom[b], ch = n, True
        self.dom = dom
        for b in self.order:
            latches = [p for p in self.preds[b] if b in dom[p]]
            if not latches:
                continue
            body, work = {b}, list(latches)
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work += self.preds[x]
            self.loops[b] = (body, latches)

    def loop_of(self, b):
        """innermost loop header of a block"""
        best = None
        for h, (body, _) in self.loops.items():
            if b in body and (best is None or len(body) < len(self.loops[best][0])):
                best = h
        return best

    # ---- values
    def value(self, o):
        if isinstance(o, int):
            o = {'i': o}
        if 'c' in o:
            return K(o['c'])
        if 'null' in o or 'zero' in o:
            return Lin()
        if 'p' in o:
            return S('arg', o['p'], self.fn.params[o['p']]['nm'] or 'arg%d' % o['p'])
        if 'g' in o:
            return S('global', o['d'])
        if 'ce' in o:
            if o['ce'] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.value(o['args'][0])
            if o['ce'] == 'getelementptr':
                return S('gep', fz(self.value(o['args'][0])), json.dumps(o['args'][1:]))
            return S('ce', json.dumps(o, sort_keys=True))
        if 'k' in o:
            return S('agg', tuple(fz(self.value(x)) for x in o['args']))
        if 'undef' in o:
            return S('undef')
        if 'i' in o:
            return self.vals.get(o['i'], S('v', o['i']))
        return S('?', json.dumps(o, sort_keys=True))

    def eltsize(self, t):
        m = re.match(r'^\[\d+ x (.*)\]$', t or '')
        t = m.group(1) if m else t
        return {'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1}.get(t)

    def compute(self, i):
        op = i['op']
        a = i.get('args', [])
        v = self.value
        if op == 'alloca':
            return S('local', i['id'])
        if op in ('zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast', 'trunc'):
            x = v(a[0])
            s = single(x)
            if op == 'trunc' and s and s[0] == 'pack' and i.get('ty') == 'i32':
                return uz(s[1])
            if narrows(i) and const_of(x) is None:
                return S('v', i['id'])
            return x
        if op == 'add':
            return v(a[0]).add(v(a[1]))
        if op == 'sub':
            return v(a[0]).add(v(a[1]), -1)
        if op == 'or':
            x, y = v(a[0]), v(a[1])
            for p, q in ((x, y), (y, x)):
                s, c = single(p), const_of(q)
                if s and s[0] == 'pack' and not uz(s[1]) and (c is None or 0 <= c < (1 << 32)):
                    return S('pack', fz(q), s[2])
        if op in ('mul', 'shl', 'sdiv', 'udiv', 'lshr', 'ashr'):
            c = const_of(v(a[1]))
            x = v(a[0])
            if op == 'shl' and c == 32:
                return S('pack', fz(Lin()), fz(x))
            s = single(x)
            if op == 'lshr' and c == 32 and s and s[0] == 'pack':
                return uz(s[2])
            if c is None and op == 'mul':
                c, x = const_of(x), v(a[1])
            if c is not None and (c > 0 or op in ('mul', 'shl', 'lshr', 'ashr')):
                c = int(c)
                k = {'mul': Fraction(c), 'shl': Fraction(1 << max(c, 0)), 'sdiv': Fraction(1, c or 1), 'udiv': Fraction(1, c or 1), 'lshr': Fraction(1, 1 << max(c, 0)), 'ashr': Fraction(1, 1 << max(c, 0))}[op]
                return x.scale(k)
        if op == 'getelementptr':
            b = v(a[0])
            if i.get('off') is not None:
                return b.add(K(i['off']))
            if len(a) == 2:
                return b.add(v(a[1]).scale(i.get('ssz', 1)))
            e = self.eltsize(i.get('sty'))
            if len(a) == 3 and e and const_of(v(a[1])) == 0:
                return b.add(v(a[2]).scale(e))
        if op == 'extractvalue':
            p = self.fn.part(a[0], i['idx'])
            if p is not None:
                return v(p)
            src = self.fn.val(a[0])
            if src is not None and src['op'] in ('call', 'invoke') and mm(cname(src), r'^llvm\.umul\.with\.overflow'):
                if i['idx'] == [0]:
                    x, y = v(src['args'][0]), v(src['args'][1])
                    for p, q in ((x, y), (y, x)):
                        c = const_of(q)
                        if c is not None:
                            return p.scale(c)
                return S('overflow', src['id'])
            return S('ev', fz(v(a[0])), tuple(i['idx']))
        if op == 'select':
            c = single(v(a[0]))
            if c and c[0] == 'overflow':
                return v(a[2])
            x, y = v(a[1]), v(a[2])
            if x == y:
                return x
            return S('sel', fz(v(a[0])), fz(x), fz(y))
        if op in ('icmp', 'fcmp'):
            return S('cmp', i['pred'], fz(v(a[0])), fz(v(a[1])))
        if op == 'and':
            return S('and', fz(v(a[0])), fz(v(a[1])))
        if op == 'landingpad':
            return S('lpad', i['id'])
        return S(op, i['id']) if op in ('call', 'invoke', 'phi') else S(op, tuple(fz(v(x)) for x in a), i['id'])

    # ---- memory
    def read(self, env, addr):
        k = fz(addr)
        if k in env:
            return env[k]
        vb = self.vec_part(env, addr)
        if vb is not None:
            return vb
        return S('ld', k)

    def vec_part(self, env, addr):
        """begin/end pointers of a vector of known content"""
        for off in (0, 8):
            c = env.get(('vec',) + fz(addr.add(K(-off))))
            if c is not None and c != 'unknown':
                b = S('elems', fz(addr.add(K(-off))), c[3])
                return b if off == 0 else b.add(c[0].scale(c[2]))
        return None

    def write(self, env, addr, val):
        env[fz(addr)] = val

    def vec(self, env, addr):
        return env.get(('vec',) + fz(addr), 'unknown')

    def setvec(self, env, addr, n, v, size, iid):
        env[('vec',) + fz(addr)] = (n, v, size, iid) if n is not None else 'unknown'

    # ---- the pass
    def _run(self):
        outs = {}
        self.trip = {}
        for b in self.order:
            ins = self.fn.blocks[b]
            loop = self.loops.get(b)
            preds = [p for p in self.preds[b] if not (loop and p in loop[1])]
            if b == 0:
                env = dict(self.init)
            else:
                ready = [self.leaving(p, b, outs[p]) for p in preds if p in outs]
                env = self.join(b, ready)
            if loop:
                self.kill_loop(env, loop[0])
                self.summarise_head(b, env)
            for i in ins:
                self.envs[i['id']] = env
                env = self.step(b, i, dict(env) if self.writes_mem(i) else env)
            outs[b] = env
        self.outs = outs

    def leaving(self, p, b, env):
        """memory on the edge p -> b, with what the loops left by it have done"""
        for h, (body, _) in self.loops.items():
            if p in body and b not in body and h in self.late:
                env = dict(env)
                for k, v in self.late[h]:
                    env[k] = v
        return env

    def join(self, b, envs):
        if len(envs) == 1:
            return dict(envs[0])
        out = {}
        keys = set().union(*[set(e) for e in envs]) if envs else set()
        for k in keys:
            vs = [e.get(k) for e in envs]
            if all(x is not None and x == vs[0] for x in vs):
                out[k] = vs[0]
            elif k and k[0] == 'vec':
                out[k] = 'unknown'
            else:
                alts = tuple(sorted(set(fz(x) if x is not None else (('ld', k),) for x in vs), key=repr))
                alts = tuple((((('ld', k), Fraction(1)),) if x == (('ld', k),) else x) for x in alts)
                out[k] = S('join', b, alts)
        return out

    def kill_loop(self, env, body):
        for x in body:
            for i in self.fn.blocks[x]:
                if i['op'] == 'store':
                    a = self.fn.val(i['args'][1])
                    if a is None or a['op'] == 'alloca' or a['id'] in self.vals:
                        env[fz(self.value(i['args'][1]))] = S('loopval', i['id'])
                n = cname(i) if i['op'] in ('call', 'invoke') else ''
                if n and vec_member(n) and method_of(n) not in VEC_READ:
                    for o in i['args'][:2 if method_of(n) in ('swap', 'operator=', '_M_move_assign') else 1]:
                        env[('vec',) + fz(self.value(o))] = 'unknown'

    def summarise_head(self, b, env):
        body, latches = self.loops[b]
        it = ('it', b)
        for i in self.fn.blocks[b]:
            if i['op'] != 'phi':
                continue
            out = [x for x in i['inc'] if x['b'] not in body]
            back = [x for x in i['inc'] if x['b'] in body]
            init = self.value(out[0]['v']) if len(set(json.dumps(x['v']) for x in out)) == 1 else None
            steps = set()
            for x in back:
                steps.add(self.stepsize(x['v'], i['id']))
            if init is not None and len(steps) == 1 and None not in steps:
                self.vals[i['id']] = init.add(Lin({it: Fraction(1)}), steps.pop())
            else:
                self.vals[i['id']] = S('phi', i['id'])

    def stepsize(self, o, phi, d=0):
        """constant c with o = phi + c"""
        i = self.fn.val(o)
        if i is None or d > 20:
            return None
        if i['id'] == phi:
            return Fraction(0)
        op, a = i['op'], i.get('args', [])
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            return self.stepsize(a[0], phi, d + 1)
        if op in ('add', 'sub'):
            s = self.stepsize(a[0], phi, d + 1)
            c = a[1].get('c')
            if s is not None and c is not None:
                return s + (c if op == 'add' else -c)
        if op == 'getelementptr':
            s = self.stepsize(a[0], phi, d + 1)
            if s is not None and i.get('off') is not None:
                return s + i['off']
        return None

    def tripcount(self, b):
        """number of iterations of the loop headed by b, or None"""
        if b in self.trip:
            return self.trip[b]
        self.trip[b] = None
        body, latches = self.loops[b]
        it = ('it', b)
        exits = []
        for x in body:
            t = self.fn.blocks[x][-1]
            ss = self.bsuccs(x)
            if any(s not in body for s in ss):
                exits.append((x, t))
        if len(exits) != 1:
            return None
        x, t = exits[0]
        if t['op'] != 'br' or 'cond' not in t or not all(x in self.dom[l] for l in latches):
            return None
        c = single(self.value(t['cond']))
        if not c or c[0] != 'cmp':
            return None
        pred, l, r = c[1], uz(c[2]), uz(c[3])
        stay = t['succ'][0] in body
        pred = pred.lstrip('us') if pred not in ('eq', 'ne') else pred
        if not stay:
            pred = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[pred]
        d = l.add(r, -1)             # stay iff d pred 0
        k = d.get(it)
        if k is None:
            return None
        a = Lin(d)
        del a[it]
        if mentions(a, lambda y: y == it):
            return None
        # d = a + k*it
        if pred == 'ne' or (pred == 'lt' and k > 0) or (pred == 'gt' and k < 0):
            n = a.scale(Fraction(-1) / k)
        elif (pred == 'le' and k > 0) or (pred == 'ge' and k < 0):
            n = a.scale(Fraction(-1) / k).add(K(1))
        else:
            return None
        first_work = self.bottom_tested(b, x)
        if first_work:
            n = n.add(K(1))
        self.trip[b] = n
        return n

    def bottom_tested(self, b, x):
        """does the work of an iteration come before its test?"""
        body, latches = self.loops[b]
        if x == b and not any(i['op'] in ('store', 'call', 'invoke') for i in self.fn.blocks[b]):
            return False
        # effects before the exit test
        before = [y for y in body if x not in self.dom[y] or y == x]
        return any(i['op'] == 'store' or (i['op'] in ('call', 'invoke') and not self.pure(i)) for y in before for i in self.fn.blocks[y])

    def pure(self, i):
        return mm(cname(i), r'^llvm\.|numeric_limits|VirtualOffsetSelector::offset\d+|operator bool|::(size|begin|end|empty)\(')

    def every_iteration(self, b, block):
        body, latches = self.loops[b]
        return all(block in self.dom[l] for l in latches)

    def writes_mem(self, i):
        return i['op'] in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg')

    def emit(self, kind, i, env, **kw):
        e = Effect(kind, i['id'], env=env, **kw)
        e.block = self.fn.block_of[i['id']]
        self.effects.append(e)
        return e

    def range_effect(self, b, i, env, addr, val, width):
        """a store inside a loop whose address moves with the loop"""
        h = self.loop_of(b)
        it = ('it', h)
        n = self.tripcount(h)
        k = addr.get(it)
        if n is None or k is None or not self.every_iteration(h, b) or any(len([1 for q in self.loops if b in self.loops[q][0]]) > 1 for _ in (0,)):
            self.emit('loose', i, env, addr=addr, val=val)
            return
        lo = subst(addr, it, Lin())
        if k < 0:
            lo = lo.add(n.add(K(-1)), k)
        hi = lo.add(n, abs(k))
        s = single(val)
        if s and s[0] == 'ld' and mentions(s, lambda y: y == it):
            src = uz(s[1])
            k2 = src.get(it)
            slo = subst(src, it, Lin())
            if k2 is not None and k2 < 0:
                slo = slo.add(n.add(K(-1)), k2)
            if k2 == k and not mentions(slo, lambda y: y == it):
                self.emit('copy', i, env, dst=lo, end=hi, src=slo, stride=abs(k), width=width)
                return
            self.emit('loose', i, env, addr=addr, val=val)
            return
        if mentions(val, lambda y: y == it):
            self.emit('loose', i, env, addr=addr, val=val)
            return
        self.emit('fill', i, env, dst=lo, end=hi, val=val, stride=abs(k), width=width)
        self.fill_vec(env, lo, hi, val, abs(k), i['id'])

    def fill_vec(self, env, lo, hi, val, stride, iid):
        for k, c in list(env.items()):
            if k and k[0] == 'vec' and c != 'unknown':
                b = S('elems', k[1:], c[3])
                if lo == b and hi == b.add(c[0].scale(c[2])) and stride == c[2]:
                    env[k] = (c[0], val, c[2], c[3])
                elif mentions(lo, lambda y: y == ('elems', k[1:], c[3])):
                    env[k] = 'unknown'
                else:
                    continue
                h = self.loop_of(self.fn.block_of[iid])
                if h is not None:
                    self.late.setdefault(h, []).append((k, env[k]))

    def step(self, b, i, env):
        op = i['op']
        if op == 'phi':
            if i['id'] not in self.vals:
                vs = []
                for x in i['inc']:
                    if x['b'] in self.pos:
                        q = self.value(x['v'])
                        if q not in vs and q != S('undef'):
                            vs.append(q)
                self.vals[i['id']] = vs[0] if len(vs) == 1 else S('phi', i['id'], tuple(fz(q) for q in vs))
            return env
        if op == 'load':
            self.vals[i['id']] = self.read(env, self.value(i['args'][0]))
            return env
        if op == 'store':
            addr, val = self.value(i['args'][1]), self.value(i['args'][0])
            h = self.loop_of(b)
            if h is not None and mentions(addr, lambda y: y == ('it', h)):
                self.range_effect(b, i, env, addr, val, i.get('sz'))
            else:
                if h is not None:
                    val = val if not mentions(val, lambda y: y == ('it', h)) else S('v', i['id'])
                self.write(env, addr, val)
                self.emit('store', i, env, addr=addr, val=val)
            return env
        if op in ('call', 'invoke'):
            return self.call(b, i, env)
        if op in ('atomicrmw', 'cmpxchg'):
            self.vals[i['id']] = S('rmw', i['id'])
            self.emit('loose', i, env, addr=self.value(i['args'][0]), val=S('rmw', i['id']))
            return env
        if 'ty' in i and op not in ('br', 'ret', 'switch', 'resume', 'unreachable'):
            self.vals[i['id']] = self.compute(i)
        return env

    def call(self, b, i, env):
        n = cname(i)
        a = [self.value(x) for x in i.get('args', []) if isinstance(x, dict)]
        iid = i['id']
        self.vals[iid] = S('call', iid, n)
        if self.callhook:
            r = self.callhook(self, i, n, a, env)
            if r is not None:
                if isinstance(r, Lin):
                    self.vals[iid] = r
                return env
        m = re.search(r'VirtualOffsetSelector::offset(\d+)\(', n)
        if m:
            self.vals[iid] = K(int(m.group(1)))
            return env
        if mm(n, r'::_M_range_check\('):
            return env
        if mm(n, r'^std::numeric_limits<(unsigned )?int>::max\(\)'):
            self.vals[iid] = K(4294967295 if 'unsigned' in n else 2147483647)
            return env
        if mm(n, r'^llvm\.mem(cpy|move)|^mem(cpy|move)$'):
            size = a[2]
            if const_of(size) == 8:
                v = self.read(env, a[1])
                self.write(env, a[0], v)
                self.emit('store', i, env, addr=a[0], val=v)
            else:
                if const_of(size) is not None and single(a[0]) and single(a[0])[0] == 'local':
                    for k in range(0, int(const_of(size)), 8):
                        self.write(env, a[0].add(K(k)), self.read(env, a[1].add(K(k))))
                self.emit('copy', i, env, dst=a[0], end=a[0].add(size), src=a[1], stride=None, width=None)
            return env
        if mm(n, r'^llvm\.memset|^memset$'):
            self.emit('fill', i, env, dst=a[0], end=a[0].add(a[2]), val=a[1], stride=None, width=1)
            return env
        m = re.search(STD_RANGE, n)
        if m and len(a) >= 3:
            k = m.group(1)
            if k in ('copy', 'uninitialized_copy'):
                self.emit('copy', i, env, dst=a[2], end=a[2].add(a[1]).add(a[0], -1), src=a[0], stride=None, width=None)
            elif k in ('fill', 'uninitialized_fill', '__uninitialized_fill'):
                self.emit('fill', i, env, dst=a[0], end=a[1], val=self.read(env, a[2]), stride=None, width=None)
                self.fill_vec(env, a[0], a[1], self.read(env, a[2]), 4, iid)
                self.fill_vec(env, a[0], a[1], self.read(env, a[2]), 8, iid)
            else:
                w = 8
                if k == 'copy_n':
                    self.emit('copy', i, env, dst=a[2], end=a[2].add(a[1].scale(w)), src=a[0], stride=None, width=None)
                else:
                    self.emit('fill', i, env, dst=a[0], end=a[0].add(a[1].scale(w)), val=self.read(env, a[2]), stride=None, width=None)
            return env
        if mm(n, r'^operator new(\[\])?\('):
            self.vals[iid] = S('new', iid)
            self.emit('new', i, env, size=a[0], array='[]' in n.split('(')[0])
            return env
        if mm(n, r'^operator delete(\[\])?\('):
            self.emit('delete', i, env, val=a[0], array='[]' in n.split('(')[0])
            return env
        if mm(n, r'^llvm\.umul|__new_allocator|^std::allocator<'):
            return env
        if self.vecs(b, i, n, a, env) or self.shared(b, i, n, a, env):
            return env
        self.emit('call', i, env, name=n, args=a)
        return env

    def vecs(self, b, i, n, a, env):
        if not a or not vec_member(n):
            return False
        op = method_of(n)
        at = a[0]
        params = n[n.rfind('>::') + 3:] if '>::' in n else ''
        params = n[self.paren(n):]
        esz = self.elem(n)
        h = self.loop_of(b)
        inloop = h is not None
        st = self.vec(env, at)
        new = None
        if op == 'vector':
            if params.startswith('()'):
                new = (Lin(), Lin())
            elif mm(params, r'^\(unsigned long, std::allocator'):
                new = (a[1], Lin())
            elif mm(params, r'^\(unsigned long, '):
                new = (a[1], self.read(env, a[2]))
            elif mm(params, r'^\(std::initializer_list'):
                new = self.initlist(a, env)
            elif mm(params, r'^\(std::vector<.*(&&|const&)'):
                s = self.vec(env, a[1])
                new = s[:2] if s != 'unknown' else None
                if '&&' in params and new is not None:
                    self.setvec(env, a[1], Lin(), Lin(), esz, i['id'])
        elif op == 'clear':
            new = (Lin(), Lin())
        elif op == 'assign' and mm(params, r'^\(unsigned long,'):
            new = (a[1], self.read(env, a[2]))
        elif op == 'assign' and mm(params, r'^\(std::initializer_list'):
            new = self.initlist(a, env)
        elif op == 'resize':
            fill = self.read(env, a[2]) if len(a) > 2 else Lin()
            if st != 'unknown' and (not st[0] or st[1] == fill or const_of(a[1]) == 0):
                new = (a[1], fill)
        elif op in ('operator=', '_M_move_assign'):
            if mm(params, r'^\(std::initializer_list'):
                new = self.initlist(a, env)
            else:
                s = self.vec(env, a[1])
                new = s[:2] if s != 'unknown' else None
                if '&&' in params and new is not None:
                    self.setvec(env, a[1], Lin(), Lin(), esz, i['id'])
        elif op == 'swap':
            o = self.vec(env, a[1])
            self.setvec(env, a[1], *(((None, None, esz) if st == 'unknown' else (st[0], st[1], esz)) + (i['id'],)))
            new = o[:2] if o != 'unknown' else None
        elif op in ('~vector',):
            env.pop(('vec',) + fz(at), None)
            self.emit('dtor', i, env, addr=at, name=n)
            return True
        elif op == 'erase' and len(a) > 2 and a[1] == self.read(env, at) and a[2] == self.read(env, at.add(K(8))):
            new = (Lin(), Lin())
        elif op in VEC_READ:
            if op == 'size' and st != 'unknown':
                self.vals[i['id']] = st[0]
            elif op in ('operator[]', 'at', 'data', 'begin', 'end'):
                base = self.read(env, at)
                if op in ('operator[]', 'at'):
                    self.vals[i['id']] = base.add(a[1].scale(esz or 1)) if esz else S('call', i['id'], n)
            return True
        if inloop and new is not None and mentions(at, lambda y: y == ('it', h)):
            new = None
        if new is None:
            env[('vec',) + fz(at)] = 'unknown'
        else:
            self.setvec(env, at, new[0], new[1], esz, i['id'])
        self.emit('vec', i, env, addr=at, op=op, content=new, loop=inloop, name=n)
        return True

    def paren(self, n):
        d = 0
        for k, c in enumerate(n):
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif c == '(' and d == 0:
                return k
        return len(n)

    def elem(self, n):
        m = re.search(r'std::vector<', n)
        t = split_top(n[m.end():])
        t = t.strip()
        if t.endswith('*'):
            return 8
        if t.startswith('std::shared_ptr'):
            return 16
        return {'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8, 'char': 1, 'unsigned char': 1, 'short': 2}.get(t, None)

    def initlist(self, a, env):
        # (begin, length); an empty list is length 0 or content of an empty constructor
        if len(a) >= 3 and const_of(a[2]) == 0:
            return (Lin(), Lin())
        s = single(a[2]) if len(a) >= 3 else None
        if s and s[0] == 'ld':
            return None
        return None

    def shared(self, b, i, n, a, env):
        if not a:
            return False
        if mm(n, r'^std::initializer_list<.*>::initializer_list\(\)'):
            self.write(env, a[0], Lin())
            self.write(env, a[0].add(K(8)), Lin())
            return True
        if not mm(n, r'std::(__)?shared_ptr<'):
            return False
        op = method_of(n)
        params = n[self.paren(n):]
        at = a[0]
        h = self.loop_of(b)
        if op in ('shared_ptr', '__shared_ptr', 'operator=', 'reset'):
            if params.startswith('()') or mm(params, r'^\(decltype\(nullptr\)|^\(std::nullptr_t') or len(a) < 2:
                val = Lin()
            elif mm(params, r'^\((const )?std::(__)?shared_ptr<'):
                val = self.read(env, a[1])
                if '&&' in params:
                    self.write(env, a[1], Lin())
            else:
                val = a[1]
            if h is not None and mentions(at, lambda y: y == ('it', h)):
                self.range_effect(b, i, env, at, val, 16)
                return True
            self.write(env, at, val)
            self.emit('own', i, env, addr=at, val=val, name=n)
            return True
        if op in ('~shared_ptr', '~__shared_ptr'):
            self.emit('dtor', i, env, addr=at, name=n)
            env.pop(fz(at), None)
            return True
        if op in ('get', 'operator->', 'operator*', '_M_get'):
            self.vals[i['id']] = self.read(env, at)
            return True
        if op == 'operator bool':
            self.vals[i['id']] = S('cmp', 'ne', fz(self.read(env, at)), fz(Lin()))
            return True
        if op == 'swap':
            x, y = self.read(env, at), self.read(env, a[1])
            self.write(env, at, y)
            self.write(env, a[1], x)
            self.emit('own', i, env, addr=at, val=y, name=n)
            return True
        return False

    # ---- questions
    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]

    def final(self):
        """memory at the normal exit"""
        rets = [b for b in self.order if self.fn.blocks[b][-1]['op'] == 'ret']
        return self.join(-1, [self.outs[b] for b in rets])

    def stored(self, iid, addr):
        """the value last stored in a place before the instruction, when one store dominates it"""
        es = [e for e in self.of('store') if e.addr == addr]
        if len(es) == 1 and self.fn.must_pass_before(iid, [es[0].iid], unwind=self.unwind):
            return es[0].val
        return None

    def before(self, x, y):
        """x is executed before y on every normal path to y"""
        at = x.iid
        h = self.loop_of(x.block) if getattr(x, 'kind', None) in ('fill', 'copy') else None
        if h is not None and self.fn.block_of[y.iid] not in self.loops[h][0]:
            at = self.fn.first(h)
        return at != y.iid and self.fn.must_pass_before(y.iid, [at], unwind=self.unwind)

    def always(self, e):
        """on every normal path from entry to exit"""
        rets = [self.fn.blocks[b][-1]['id'] for b in self.order if self.fn.blocks[b][-1]['op'] == 'ret']
        if e.kind in ('fill', 'copy') and self.loop_of(e.block) is not None:
            h = self.loop_of(e.block)
            t = self.fn.first(h)
            return all(self.fn.must_pass_before(r, [t], unwind=self.unwind) for r in rets)
        return all(self.fn.must_pass_before(r, [e.iid], unwind=self.unwind) for r in rets)

    def anchor_ins(self, e):
        """instruction standing for the effect in order questions (the loop head for loops)"""
        h = self.loop_of(e.block)
        return self.fn.first(h) if h is not None else e.iid


def split_top(s):
    d = 0
    for k, c in enumerate(s):
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                return s[:k]
            d -= 1
        elif c == ',' and d == 0:
            return s[:k]
    return s
