"""Abstract interpretation with affine values.

Integers and pointers are linear combinations of named symbols, truth values are
comparisons of such combinations, memory is tracked per access path. A region
(a polyhedron given by its corner points and directions) says what is known
about the symbols; comparisons it does not decide are followed both ways.
"""
from fractions import Fraction

from fk import *  # noqa
from fk import Lin, cname, mm, operands, ids_in, AnchorError, Violation, EXC, RET

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
OKSIGNS = {'eq': {0}, 'ne': {-1, 1}, 'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}}


class IP(tuple):
    """interned access path: hashed once"""

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o if type(o) is IP else tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '#%d' % self.n


def num(c):
    return Lin({None: Fraction(c)}) if c else Lin()


def sym(s):
    return Lin({s: Fraction(1)})


def const(v):
    """integer value of a constant form, or None"""
    if isinstance(v, Lin):
        if not v:
            return 0
        if set(v) == {None}:
            return v[None]
    return None


def fz(v):
    return tuple(sorted(((k, c) for k, c in v.items()), key=repr)) if isinstance(v, Lin) else v


def show(v):
    if isinstance(v, Lin):
        if not v:
            return '0'
        return ' + '.join(('%s*' % c if c != 1 and k is not None else '') + (str(c) if k is None else render(k) if isinstance(k, tuple) else str(k)) for k, c in sorted(v.items(), key=repr))
    return str(v)


class Region:
    """convex set of symbol values: corners (dicts) and directions (dicts)"""

    def __init__(self, name, corners=(), rays=()):
        self.name, self.corners, self.rays = name, list(corners), list(rays)
        self.syms = set(k for g in self.corners + self.rays for k in g)

    def signs(self, l):
        """possible signs of the linear form over the region"""
        if any(k is not None and k not in self.syms for k in l):
            return {-1, 0, 1}
        if not self.corners:
            c = l.get(None, 0)
            return {(c > 0) - (c < 0)} if set(l) <= {None} else {-1, 0, 1}
        vs = [sum(c * (1 if k is None else g.get(k, 0)) for k, c in l.items()) for g in self.corners]
        rs = [sum(c * g.get(k, 0) for k, c in l.items() if k is not None) for g in self.rays]
        out = set()
        lo, hi = min(vs), max(vs)
        if any(r > 0 for r in rs):
            hi = None
        if any(r < 0 for r in rs):
            lo = None
        if lo is None or lo < 0:
            out.add(-1)
        if hi is None or hi > 0:
            out.add(1)
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            out.add(0)
        return out


class State:
    __slots__ = ('vals', 'mem', 'facts', 'user', 'interp')

    def __init__(self, vals, mem, facts, user, interp):
        self.vals, self.mem, self.facts, self.user, self.interp = vals, mem, facts, user, interp

    def copy(self):
        return State(dict(self.vals), dict(self.mem), dict(self.facts), self.user, self.interp)

    def val(self, o):
        return self.interp.value(self, o)

    def arg(self, i, k):
        return self.interp.value(self, i['args'][k])

    def rename(self, s, form):
        """substitute symbol s by form everywhere"""
        def sub(v):
            if isinstance(v, Lin):
                if s in v:
                    c = v[s]
                    w = Lin({k: x for k, x in v.items() if k != s})
                    return w.add(form, c)
                return v
            if isinstance(v, tuple) and v and v[0] == 'cmp':
                return ('cmp', v[1], sub(v[2]))
            return v
        self.vals = {k: sub(v) for k, v in self.vals.items()}
        self.mem = {k: sub(v) for k, v in self.mem.items()}
        nf = {}
        for k, v in self.facts.items():
            if k[0] == 'l':
                l = sub(Lin(dict(k[1])))
                kk, flip = self.interp.factkey(l)
                if kk is None:
                    continue
                nf[kk] = frozenset(-x for x in v) if flip else v
            else:
                nf[k] = v
        self.facts = nf

    def forget(self, s):
        """drop everything that mentions symbol s"""
        def has(v):
            return (isinstance(v, Lin) and s in v) or (isinstance(v, tuple) and v and v[0] == 'cmp' and s in v[2])
        self.vals = {k: v for k, v in self.vals.items() if not has(v)}
        self.mem = {k: v for k, v in self.mem.items() if not has(v)}
        self.facts = {k: v for k, v in self.facts.items() if not (k[0] == 'l' and any(x[0] == s for x in k[1])) and k != ('s', s)}

    def freeze(self):
        return (frozenset((k, fzv(v)) for k, v in self.vals.items()), frozenset((k, fzv(v)) for k, v in self.mem.items()),
                frozenset(self.facts.items()), self.user)


def fzv(v):
    if isinstance(v, Lin):
        return ('L', fz(v))
    if isinstance(v, tuple) and v and v[0] == 'cmp':
        return ('cmp', v[1], fz(v[2]))
    return v


class Aff:
    """step(S, ev) mutates S.user etc.; returns False to drop the path; raises Violation.
    Events as in Sim. `load(S, ins)` may give a value for a load, `call(S, ins)` for a call."""

    def __init__(self, fn, step, user=None, mem=None, region=None, load=None, call=None, params=None, memkey=None, unwind=True, max_states=20000, facts=True, track=None, head=None, signs=None):
        self.fn, self.step, self.user0, self.mem0 = fn, step, user, dict(mem or {})
        self.region = region or Region('any')
        self.load_hook, self.call_hook = load, call
        self.params = params or {}
        self.memkey_hook = memkey
        self.unwind, self.max_states = unwind, max_states
        self.use_facts = facts
        self.track, self.head_hook, self.signs_hook = track, head, signs
        self._steps, self._bodies = {}, {}
        self.heads = self._heads()
        self.visited = self.transitions = 0
        self.interned, self.paths = {}, {}
        self.later = self._later()
        self.live = self._liveness()

    # ---- liveness
    def _liveness(self):
        fn = self.fn
        use, dfn, succ, phiuse = {}, {}, {}, {}
        for b, lst in fn.blocks.items():
            u, d = set(), set()
            for i in lst:
                if i['op'] != 'phi':
                    for o in operands(i):
                        for x in ids_in(o):
                            if x not in d:
                                u.add(x)
                d.add(i['id'])
            use[b], dfn[b] = u, d
            t = lst[-1]
            succ[b] = list(t.get('succ', [])) + [t[k] for k in ('normal', 'unwind') if k in t]
        for b, lst in fn.blocks.items():
            for i in lst:
                if i['op'] != 'phi':
                    break
                for inc in i['inc']:
                    phiuse.setdefault((inc['b'], b), set()).update(ids_in(inc['v']))
        live = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                out = set()
                for s in succ[b]:
                    out |= live[s] - set(i['id'] for i in fn.blocks[s] if i['op'] == 'phi')
                    out |= phiuse.get((b, s), set())
                n = use[b] | (out - dfn[b])
                n |= set(i['id'] for i in fn.blocks[b] if i['op'] == 'phi')
                if n != live[b]:
                    live[b] = n
                    ch = True
        # keep operands of live values that are recomputed on demand
        return live

    def path(self, o):
        """interned access path of an operand"""
        k = repr(sorted(o.items(), key=repr)) if 'i' not in o else o['i']
        p = self.paths.get(k)
        if p is None:
            p = self.paths[k] = self.intern(self.fn.path(o))
        return p

    def intern(self, t):
        if not isinstance(t, tuple) or type(t) is IP:
            return t
        p = self.interned.get(t)
        if p is None:
            p = IP(t)
            p.h, p.n = tuple.__hash__(p), len(self.interned)
            self.interned[t] = p
        return p

    def _heads(self):
        """blocks entered by a back edge"""
        fn = self.fn
        out, state, work = set(), {}, [(fn.block_of[fn.entry], None)]
        stack = []
        while work:
            b, it = work.pop()
            if it is None:
                state[b] = 1
                t = fn.blocks[b][-1]
                it = iter(list(t.get('succ', [])) + [t[k] for k in ('normal', 'unwind') if k in t])
            for x in it:
                if x not in state:
                    work += [(b, it), (x, None)]
                    break
                if state[x] == 1:
                    out.add(x)
            else:
                state[b] = 2
        return out

    def _later(self):
        """block -> memory keys and path symbols that may still be read from its start on"""
        fn = self.fn
        rd = {}
        for b, lst in fn.blocks.items():
            rd[b] = set()
            for i in lst:
                if i['op'] == 'load':
                    rd[b] |= {self.memkey(None, i['args'][0]), self.path({'i': i['id']})}
        ch = True
        while ch:
            ch = False
            for b, lst in fn.blocks.items():
                t = lst[-1]
                n = len(rd[b])
                for x in list(t.get('succ', [])) + [t[k] for k in ('normal', 'unwind') if k in t]:
                    rd[b] |= rd[x]
                ch |= len(rd[b]) != n
        return rd

    # ---- values
    def value(self, S, o, d=0):
        fn = self.fn
        if isinstance(o, int):
            o = {'i': o}
        if 'c' in o:
            return num(o['c'] & 1 if o.get('w') == 1 else o['c'])
        if 'null' in o or 'zero' in o:
            return Lin()
        if 'p' in o:
            if o['p'] in self.params:
                return self.params[o['p']]
            return sym(self.path(o))
        if 'i' not in o:
            return sym(self.path(o)) if 'undef' not in o else sym(('undef',))
        x = o['i']
        if x in S.vals:
            return S.vals[x]
        i = fn.ins.get(x)
        if i is None:
            return sym(('?', x))
        if i['op'] in ('load', 'phi', 'call', 'invoke', 'landingpad') or d > 80:
            return sym(('v', x))
        return self.compute(S, i, d + 1)

    def compute(self, S, i, d=0):
        fn = self.fn
        op = i['op']
        ty = i.get('ty')
        v = lambda k: self.value(S, i['args'][k], d)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = v(0)
            if ty == 'i1' and op == 'trunc' and isinstance(a, Lin) and const(a) is None:
                return ('cmp', 'ne', a)
            if narrows(i) and isinstance(a, Lin) and const(a) is None:
                return sym(('v', i['id']))
            return a
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'shl', 'ashr', 'lshr') and ty != 'i1':
            a, b = v(0), v(1)
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                return sym(('v', i['id']))
            if op == 'add':
                return a.add(b)
            if op == 'sub':
                return a.add(b, -1)
            cb, ca = const(b), const(a)
            if op == 'mul' and cb is not None:
                return a.scale(cb)
            if op == 'mul' and ca is not None:
                return b.scale(ca)
            if cb is not None and cb != 0 and op in ('sdiv', 'udiv'):
                return a.scale(Fraction(1) / cb)
            if cb is not None and op == 'shl':
                return a.scale(Fraction(2) ** int(cb))
            if cb is not None and op in ('ashr', 'lshr'):
                return a.scale(Fraction(1) / (Fraction(2) ** int(cb)))
            if op == 'mul':
                return sym(('mul',) + tuple(sorted((fz(a), fz(b)), key=repr)))
            return sym((op, fz(a), fz(b)))
        if op == 'getelementptr':
            if 'field' in i:
                if i['field'].startswith('<base'):
                    b = v(0)
                    return b if not i.get('off') else b.add(num(i['off']))
                return sym(self.addr(S, {'i': i['id']}))
            b = v(0)
            if not isinstance(b, Lin):
                return sym(('v', i['id']))
            if i.get('off') is not None:
                return b.add(num(i['off']))
            if len(i['args']) == 2:
                k = v(1)
                if isinstance(k, Lin):
                    return b.add(k.scale(i.get('ssz', 1)))
            return sym(('v', i['id']))
        if op == 'icmp':
            a, b = v(0), v(1)
            ba, bb = isbool(a), isbool(b)
            if ba or bb:
                return sym(('v', i['id']))
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                return sym(('v', i['id']))
            return ('cmp', i['pred'], a.add(b, -1))
        if op == 'xor' and ty == 'i1':
            a, b = v(0), v(1)
            if const(b) is not None:
                a, b = b, a
            if const(a) is not None:
                return negate(b) if const(a) else b
            return sym(('v', i['id']))
        if op == 'select':
            c = self.truth(S, v(0))
            if c is not None:
                return v(1) if c else v(2)
            a, b = v(1), v(2)
            if fzv(a) == fzv(b):
                return a
            return sym(('v', i['id']))
        if op == 'alloca':
            return sym(('local', i['id'], i.get('nm', '')))
        return sym(('v', i['id']))

    def addr(self, S, o, d=0):
        """symbolic address: like Fn.path but through tracked memory"""
        return self.path(o)

    def factkey(self, l):
        if not l or set(l) == {None}:
            return None, False
        t = fz(l)
        lead = [c for k, c in t if k is not None][0]
        if lead < 0:
            return ('l', fz(l.scale(-1 / abs(lead) if abs(lead) != 1 else -1))), True
        return ('l', fz(l.scale(1 / lead) if lead != 1 else l)), False

    def signs(self, S, l):
        s = self.region.signs(l)
        if self.signs_hook:
            h = self.signs_hook(S, l)
            if h is not None:
                s = s & h
        k, flip = self.factkey(l)
        if k is not None and k in S.facts:
            f = S.facts[k]
            if flip:
                f = frozenset(-x for x in f)
            s = s & f
        return s

    def truth(self, S, v):
        """True/False/None of a truth value"""
        if isinstance(v, Lin):
            c = const(v)
            if c is not None:
                return c != 0
            s = self.signs(S, v)
            if 0 not in s:
                return True
            if s == {0}:
                return False
            return None
        if isinstance(v, tuple) and v[0] == 'cmp':
            p = v[1] if v[1] in ('eq', 'ne') else v[1][1:]
            s = self.signs(S, v[2])
            ok = OKSIGNS[p]
            if s <= ok:
                return True
            if not (s & ok):
                return False
            return None
        if isinstance(v, tuple) and v[0] == 'not':
            t = self.truth(S, v[1])
            return None if t is None else not t
        return None

    def learn(self, S, v, val):
        """record that truth value v is val; False when contradictory"""
        t = self.truth(S, v)
        if t is not None and t != val:
            return False
        if isinstance(v, tuple) and v[0] == 'not':
            return self.learn(S, v[1], not val)
        if not self.use_facts:
            return True
        if isinstance(v, Lin):
            v = ('cmp', 'ne', v)
        if isinstance(v, tuple) and v[0] == 'cmp':
            p = v[1] if val else NEG[v[1]]
            p = p if p in ('eq', 'ne') else p[1:]
            k, flip = self.factkey(v[2])
            if k is not None:
                ok = frozenset(-x for x in OKSIGNS[p]) if flip else frozenset(OKSIGNS[p])
                S.facts[k] = S.facts.get(k, frozenset((-1, 0, 1))) & ok
                if not S.facts[k]:
                    return False
        return True

    # ---- cond events: all instructions whose truth follows from the branch
    def implied(self, S, o, val, out, d=0):
        i = self.fn.val(o)
        if i is None or d > 20:
            return
        out.append((i['id'], val))
        op = i['op']
        if op in ('zext', 'trunc', 'freeze'):
            self.implied(S, i['args'][0], val, out, d + 1)
        elif op == 'xor' and i.get('ty') == 'i1':
            for k in (0, 1):
                if 'c' in i['args'][k]:
                    self.implied(S, i['args'][1 - k], val ^ bool(i['args'][k]['c'] & 1), out, d + 1)
        elif op == 'phi':
            s = S.vals.get(i['id'])
            if isinstance(s, tuple) and s[0] == 'alias':
                self.implied(S, {'i': s[1]}, val, out, d + 1)
        elif op == 'icmp' and i['pred'] in ('eq', 'ne'):
            for k in (0, 1):
                c = const(self.value(S, i['args'][k]))
                j = self.fn.val(i['args'][1 - k])
                if c == 0 and j is not None and j['op'] in ('zext', 'trunc', 'phi', 'call', 'invoke'):
                    self.implied(S, i['args'][1 - k], val == (i['pred'] == 'ne'), out, d + 1)

    # ---- run
    def run(self):
        fn = self.fn
        S0 = State({}, dict(self.mem0), {}, self.user0, self)
        start = (fn.entry, S0.freeze())
        seen = {start: None}
        work = [(fn.entry, S0, start)]
        self.exits = []
        exset = set()
        while work:
            node, S, key = work.pop()
            self.visited += 1
            if self.visited > self.max_states:
                raise AnchorError('state limit reached in ' + fn.name)
            inner = [(node, S.copy())]
            while inner:
                node, S = inner.pop()
                try:
                    outs = list(self.transfer(S, node, fn.ins[node]))
                except Violation as e:
                    raise self.explain(e, key, seen, node)
                for t, S2, cross in outs:
                    self.transitions += 1
                    if t in (EXC, RET):
                        f = (t, S2.freeze())
                        if f not in exset:
                            exset.add(f)
                            self.exits.append((t, S2))
                    elif not cross:
                        inner.append((t, S2))
                    else:
                        k2 = (t, S2.freeze())
                        if k2 not in seen:
                            seen[k2] = key
                            work.append((t, S2, k2))
        return self

    def transfer(self, S, node, i):
        fn = self.fn
        op = i['op']
        if op != 'phi':
            self.bind(S, i)
            if self.step(S, ('ins', node)) is False:
                return
        if op == 'select' and i['id'] not in S.vals:
            pass
        forks = [S]
        if op == 'select':
            v = self.value(S, i['args'][0])
            if self.truth(S, v) is None and self.interesting(i):
                forks = []
                for val in (True, False):
                    S2 = S.copy()
                    if not self.learn(S2, v, val):
                        continue
                    if not self.conds(S2, i['args'][0], val):
                        continue
                    S2.vals[node] = self.value(S2, i['args'][1 if val else 2])
                    forks.append(S2)
        for S1 in forks:
            for kind, t in fn.succs(node):
                if kind == 'unwind' and not self.unwind:
                    continue
                S2 = S1.copy()
                if 'cond' in i and kind.startswith('br'):
                    k = int(kind[2:])
                    if op == 'br':
                        v = self.value(S2, i['cond'])
                        if not self.learn(S2, v, k == 0):
                            continue
                        if not self.conds(S2, i['cond'], k == 0):
                            continue
                    else:
                        v = self.value(S2, i['cond'])
                        bad = False
                        if isinstance(v, Lin):
                            for n, c in enumerate(i['cases']):
                                want = (k == n + 1)
                                if (k == n + 1 or k == 0) and not self.learn(S2, ('cmp', 'eq', v.add(num(c), -1)), want):
                                    bad = True
                        if bad:
                            continue
                if kind != 'seq' and self.step(S2, ('edge', node, kind)) is False:
                    continue
                if kind == 'unwind' and node in S2.vals:
                    del S2.vals[node]
                if t in (EXC, RET):
                    if self.step(S2, ('exit', t)) is False:
                        continue
                    yield t, S2, True
                    continue
                if fn.block_of[t] != fn.block_of[node] or op in ('br', 'switch', 'invoke'):
                    for S3 in self.enter(S2, fn.block_of[node], fn.block_of[t]):
                        yield t, S3, True
                else:
                    yield t, S2, False

    def interesting(self, i):
        return True

    def conds(self, S, o, val):
        out = []
        self.implied(S, o, val, out)
        for x, v in out:
            if self.step(S, ('cond', x, v)) is False:
                return False
        return True

    def enter(self, S, pb, b):
        """phis of block b when coming from pb; unknown truth values are split"""
        fn = self.fn
        ph = []
        for q in fn.blocks[b]:
            if q['op'] != 'phi':
                break
            inc = [x['v'] for x in q['inc'] if x['b'] == pb]
            if inc:
                ph.append((q, inc[0]))
        opts = [(S, {})]
        for q, inc in ph:
            nxt = []
            for S1, news in opts:
                v = self.value(S1, inc)
                if (q.get('ty') == 'i1' or isbool(v) or self.boolish(inc)) and self.truth(S1, v) is None:
                    for val in (True, False):
                        S2 = S1.copy()
                        if not self.learn(S2, v, val) or not self.conds(S2, inc, val):
                            continue
                        n2 = dict(news)
                        n2[q['id']] = num(int(val))
                        nxt.append((S2, n2))
                elif q.get('ty') == 'i1' or isbool(v) or self.boolish(inc):
                    n2 = dict(news)
                    n2[q['id']] = num(int(self.truth(S1, v)))
                    nxt.append((S1, n2))
                else:
                    nxt.append((S1, news))
            opts = nxt
        for S1, news in opts:
            S2 = S1.copy()
            for q, inc in ph:
                if q['id'] not in news:
                    news[q['id']] = self.value(S2, inc)
            wide = []
            if b in self.heads:
                # truth values stay; other values become symbols of this loop
                cand = [q for q, inc in ph if not self.truthlike(q)]
                moving = [q for q in cand if self.step_of(q) and isinstance(news[q['id']], Lin)]
                moving.sort(key=lambda q: q.get('ty') == 'ptr')
                lead = moving[0] if moving else None
                self.lead, self.rounds, lform = None, None, None
                if lead is not None:
                    x, st = lead['id'], Fraction(self.step_of(lead))
                    self.lead = x
                    lform = sym(('new', x))
                    if lead.get('ty') == 'ptr':
                        # a pointer is its starting value plus the rounds gone by
                        if pb not in self.body_of(b):
                            S2.vals[('b', x)] = news[x]
                        base = S2.vals.get(('b', x))
                        if isinstance(base, Lin):
                            lform = base.add(sym(('new', x)), st)
                    # rounds between the current values and the new symbols
                    self.rounds = lform.add(news[x], -1).scale(1 / st)
                if self.head_hook:
                    self.head_hook(S2, b, {q['id']: (news[q['id']], self.step_of(q) or 0) for q in cand}, pb)
                vals = dict(news)
                for q in cand:
                    x = q['id']
                    if self.track and self.track(q):
                        continue
                    wide.append(x)
                    if lead is not None and q in moving:
                        news[x] = lform if q is lead else vals[x].add(self.rounds, Fraction(self.step_of(q)))
                    else:
                        news[x] = sym(('new', x))
            for x in news:
                if x in wide:
                    S2.vals.pop(x, None)
                else:
                    self.redefine(S2, x, news)
            S2.vals.update(news)
            for x in wide:
                S2.forget(('v', x))
            for x in wide:
                S2.rename(('new', x), sym(('v', x)))
            live = self.live[b]
            S2.vals = {k: v for k, v in S2.vals.items() if k in live or isinstance(k, tuple)}
            self.prune(S2, b)
            yield S2

    def body_of(self, b):
        if b not in self._bodies:
            from common import loop_blocks_of
            self._bodies[b] = loop_blocks_of(self.fn, b)
        return self._bodies[b]

    def truthlike(self, q):
        if q.get('ty') == 'i1':
            return True
        return all(self.boolish(x['v']) or x['v'].get('c') in (0, 1) for x in q['inc']) and any(self.boolish(x['v']) for x in q['inc'])

    def step_of(self, q):
        """constant added to the phi on every way round its loop, or None"""
        x = q['id']
        if x not in self._steps:
            st = set()
            for inc in q['inc']:
                l = lin(self.fn, inc['v'])
                if l.get(('phi', x)) == 1:
                    st.add(l.get(None, 0) if set(l) <= {('phi', x), None} else None)
            self._steps[x] = st.pop() if len(st) == 1 else None
        return self._steps[x]

    def boolish(self, o):
        i = self.fn.val(o)
        return i is not None and i['op'] == 'zext' and (self.fn.val(i['args'][0]) or {}).get('ty') == 'i1'

    def redefine(self, S, x, news=None):
        s = ('v', x)
        def has(v):
            return (isinstance(v, Lin) and s in v) or (isinstance(v, tuple) and v and v[0] == 'cmp' and s in v[2])
        if any(has(v) for v in S.vals.values()) or any(has(v) for v in S.mem.values()) or any(k[0] == 'l' and any(y[0] == s for y in k[1]) for k in S.facts):
            # the old value stays usable under another name once
            old = ('old', x)
            S.forget(old)
            S.rename(s, sym(old))
            if news is not None:
                for k, v in list(news.items()):
                    if isinstance(v, Lin) and s in v:
                        news[k] = Lin({kk: c for kk, c in v.items() if kk != s}).add(sym(old), v[s])

    def prune(self, S, b):
        later = self.later[b]
        S.mem = {k: v for k, v in S.mem.items() if k in later or k == ('exc',) or (isinstance(k, tuple) and k and k[0] == 'F')}
        used = set(self.region.syms)
        for v in list(S.vals.values()) + list(S.mem.values()):
            if isinstance(v, Lin):
                used |= set(v)
            elif isinstance(v, tuple) and v and v[0] == 'cmp':
                used |= set(v[2])
        keep = {}
        for k, f in S.facts.items():
            if k[0] == 'l':
                ss = [x[0] for x in k[1] if x[0] is not None]
                if all(isinstance(s, str) or s in used or s in later for s in ss):
                    keep[k] = f
            else:
                keep[k] = f
        S.facts = keep

    def memkey(self, S, o):
        p = self.path(o)
        if self.memkey_hook:
            k = self.memkey_hook(p)
            if k is not None:
                return k
        return p

    def bind(self, S, i):
        """value of a newly executed instruction"""
        fn = self.fn
        op = i['op']
        x = i['id']
        if op == 'load':
            self.redefine(S, x)
            v = self.load_hook(S, i) if self.load_hook else None
            if v is None:
                k = self.memkey(S, i['args'][0])
                if isinstance(k, tuple) and k[0] == 'call' and k[2] == '__cxa_begin_catch':
                    k = ('exc',)
                v = S.mem.get(k)
            if v is None:
                v = self.fresh_load(S, i)
            S.vals[x] = v
        elif op in ('call', 'invoke'):
            self.redefine(S, x)
            S.vals.pop(x, None)
            v = self.call_hook(S, i) if self.call_hook else None
            if v is not None:
                S.vals[x] = v
            elif 'ty' in i:
                S.vals[x] = sym(('v', x))
            self.clobber(S, i)
        elif op == 'store':
            k = self.memkey(S, i['args'][1])
            if isinstance(k, tuple) and k[0] == 'call' and k[2] == '__cxa_allocate_exception':
                k = ('exc',)
            v = self.value(S, i['args'][0])
            if isbool(v):
                t = self.truth(S, v)
                v = num(int(t)) if t is not None else v
            if k == ('exc',) or (isinstance(k, tuple) and k and k[0] == 'F') or (k in self.later[fn.block_of[fn.entry]] and not has_volatile(k)):
                S.mem[k] = v
        elif op in ('br', 'ret', 'switch', 'unreachable', 'resume'):
            pass
        elif 'ty' in i:
            self.redefine(S, x)
            S.vals.pop(x, None)
            v = self.compute(S, i)
            S.vals[x] = v

    def fresh_load(self, S, i):
        p = self.path({'i': i['id']})
        if has_volatile(p):
            return sym(('v', i['id']))
        return sym(p)

    def clobber(self, S, i):
        """locals handed to a call may change"""
        n = cname(i)
        if n.startswith('llvm.') and not mm(n, 'llvm.mem'):
            return
        for a in i['args']:
            la = self.fn.local_addr(a) if isinstance(a, dict) else None
            if la is None:
                continue
            for k in [k for k in S.mem if isinstance(k, tuple) and root_of(k) == ('local', la[0])]:
                del S.mem[k]

    def explain(self, e, key, seen, node):
        lines = []
        trail = [node]
        k = key
        while k is not None:
            trail.append(k[0])
            k = seen[k]
        trail.reverse()
        for n in trail:
            w = self.fn.where(n)
            if w and (not lines or lines[-1] != w) and ('include/' in w or 'config/' in w) and 'c++' not in w:
                lines.append(w)
        v = Violation(str(e))
        v.path = lines[-40:]
        return v


def root_of(p):
    while isinstance(p, tuple) and p[0] in ('.', '*', 'adj', 'at', 'gep0'):
        p = p[1]
    return p[:2] if isinstance(p, tuple) and p[0] == 'local' else p


def isbool(v):
    return isinstance(v, tuple) and v and v[0] in ('cmp', 'not')


def negate(v):
    if isinstance(v, tuple) and v[0] == 'cmp':
        return ('cmp', NEG[v[1]], v[2])
    if isinstance(v, Lin):
        return ('cmp', 'eq', v)
    if isinstance(v, tuple) and v[0] == 'not':
        return v[1]
    return ('not', v)


def has_volatile(p):
    """does the path go through values that change from one evaluation to the next?"""
    if isinstance(p, frozenset):
        return True
    if not isinstance(p, tuple):
        return False
    if p and p[0] in ('phi', 'call', 'rec', 'deep', '?', 'sel'):
        return True
    return any(has_volatile(x) for x in p)


def entails(S, w):
    """does S know that the form w is not negative?"""
    sg = S.interp.signs(S, w)
    if sg <= {0, 1}:
        return True
    for k, f in S.facts.items():
        if k[0] != 'l':
            continue
        for sign in (1, -1):
            l = Lin(dict(k[1])).scale(sign)
            fs = f if sign == 1 else frozenset(-x for x in f)
            # w = c * l + d with c > 0
            for s, c in w.items():
                if s is not None and s in l and l[s]:
                    r = c / l[s]
                    if r > 0:
                        d = w.add(l.scale(r), -1)
                        if set(d) <= {None}:
                            # integer l: known lower bound
                            lo = 1 if fs == {1} else 0 if fs <= {0, 1} else None
                            lo = lo * r if lo is not None and integral(l) else (0 if lo is not None else None)
                            if lo is not None and lo + d.get(None, 0) >= 0:
                                return True
                            if lo is not None and fs == {1} and lo + d.get(None, 0) > -1 and integral(w):
                                return True
                    break
    return False


def integral(l):
    return all(Fraction(c).denominator == 1 for c in l.values())
