"""The search for matches in the recorded calls, followed with ghost counters.

Ghosts (affine forms over the loop symbols of the code under analysis):
  E  calls before the place where the next sequence may start
  I  candidate start of the sequence looked for
  J  matchers of the sequence already asked at the candidate
  K  calls of the accepted sequence already collected
  C  complete matches so far
M is the number of matchers of the current sequence, Z the number of calls.
"""
from aff import *
from common import *
from verif import *
from walk import *

FILL = r'fakeit::Sequence::getExpectedSequence\('
ASK = r'fakeit::Invocation::Matcher::matches\('
SIZEOF = r'fakeit::Sequence::size\(\)'
MATCH_SPEC = ['root match ^fakeit::MatchAnalysis::run\\(', 'opaque ^fakeit::InvocationUtils::']


def nest(fn, block):
    """headers of the loops around a block, innermost first"""
    a = Aff(fn, lambda S, ev: True)
    out = []
    for h in a.heads:
        body = natural(fn, h)
        if block in body:
            out.append((len(body), h))
    return [h for n, h in sorted(out)]


def natural(fn, h):
    return loop_blocks_of(fn, h)


class Search:
    def __init__(self, ctx, fn, collect):
        self.ctx, self.fn, self.collect = ctx, fn, collect
        asks = fn.calls(ASK)
        ctx.anchor(len(asks) >= 1, 'no matcher is asked in the analysis of the history')
        fills = fn.calls(FILL)
        ctx.anchor(fills, 'matchers of a sequence are not fetched')
        self.asks, self.fills = set(asks), set(fills)
        self.vec = set(fn.local_addr(fn.ins[k]['args'][1]) for k in fills)
        ctx.anchor(len(self.vec) == 1 and None not in self.vec, 'list of matchers not found')
        self.vec = list(self.vec)[0]
        self.hist = searched(ctx, fn)
        ln = nest(fn, fn.block_of[asks[0]])
        ctx.anchor(len(ln) == 4, 'search is not a nest of four loops (%d)' % len(ln))
        self.hJ, self.hI, self.hP, self.hC = ln
        pats = [w for w in walks(fn) if isinstance(w, VecWalk) and w.block == self.hP]
        ctx.anchor(len(pats) >= 1, 'the walk over the pattern was not recognised')
        self.pat = pats[0]
        self.order = set(w.order for w in pats)
        # lists the matched calls are collected in
        self.matched = None
        self.tmp = set()
        self.adds = {}
        for k, op, p in mutations(fn):
            if not mm(cname(fn.ins[k]), r'Invocation\*') or mm(cname(fn.ins[k]), r'unordered_set'):
                continue
            la = fn.local_addr(fn.ins[k]['args'][0])
            tf = this_field(p)
            if tf and p != self.hist:
                self.matched = p
                self.adds[k] = ('matched', op)
            elif la:
                self.tmp.add(la[0])
                self.adds[k] = ('tmp', op)
        pushes = [k for k, a in self.adds.items() if a[0] == 'tmp' or (a[0] == 'matched' and fn.block_of[k] in natural(fn, self.hP))]
        lk = nest(fn, fn.block_of[pushes[0]]) if pushes else []
        self.hK = lk[0] if lk and lk[0] not in (self.hP, self.hC, self.hI, self.hJ) else None
        self.each = {}
        self.flat = [w for w in walks(fn) if isinstance(w, VecWalk) and w.owner[0] == 'local' and w.owner[1] in self.tmp]
        for k, w in enumerate(self.flat):
            acts = set(x for x, (wh, op) in self.adds.items() if wh == 'matched' and op in VEC_ADD and w.current(fn.ins[x]['args'][1]))
            if acts:
                self.each[k] = Each(w, acts, noun='call of a complete match is')

    # ---- hooks
    def load(self, S, i):
        fn = self.fn
        p = fn.arg(i['id'], 0)
        la = fn.local_addr(i['args'][0])
        if la and la[0] == self.vec[0]:
            if la[1] in ((), ('_M_start',)):
                return sym('MB')
            if la[1] == ('_M_finish',):
                return sym('MB').add(sym('M').scale(8))
        if is_begin(('*', p), self.hist):
            return sym('AB')
        if is_end(('*', p), self.hist):
            return sym('AB').add(sym('Z').scale(8))
        return None

    def call(self, S, i):
        n = cname(i)
        if mm(n, SIZEOF):
            if S.vals.get(('g', 'seq')) is not None and fz(S.arg(i, 0)) == fz(S.vals[('g', 'seq')]):
                return sym('M')
        la = self.fn.local_addr(i['args'][0]) if i['args'] else None
        if la and la[0] == self.vec[0] and not la[1] and mm(n, r'::size\(\) const$'):
            return sym('M')
        return None

    def signs(self, S, l):
        pos = lambda s: s in ('M', 'Z') or (isinstance(s, tuple) and s[0] in ('v', 'old') and s[1] in self.counters)
        if all(s is None or (c > 0 and pos(s)) for s, c in l.items()) and l.get(None, 0) >= 0:
            return {1} if l.get(None, 0) > 0 or any(s == 'M' for s in l) else {0, 1}
        if all(s is None or (c < 0 and pos(s)) for s, c in l.items()) and l.get(None, 0) <= 0:
            return {-1} if l.get(None, 0) < 0 or any(s == 'M' for s in l) else {-1, 0}
        return None

    def head(self, S, b, phis, pb):
        G = lambda n: S.vals.get(('g', n))
        if b == self.hI and S.user == 'rejected':
            self.reject(S)
        if b == self.hK and self.collect and S.user in ('search', 'rejected'):
            self.accepted(S, self.fn.where(self.fn.blocks[pb][-1]['id']))

        def by_step(n):
            g = G(n)
            if g is None:
                return
            if S.interp.rounds is not None:
                # J, K <= M when it holds each time the loop comes round
                bound = n in ('J', 'K') and entails(S, sym('M').add(g, -1))
                S.vals[('g', n)] = g = g.add(S.interp.rounds)
                if bound:
                    S.interp.learn(S, ('cmp', 'sge', sym('M').add(g, -1)), True)
        if b == self.hJ:
            if S.user == 'rejected':
                S.vals.pop(('g', 'J'), None)
            else:
                by_step('J')
        elif b == self.hI:
            by_step('I')
        elif b == self.hK:
            by_step('K')
        elif b == self.hC:
            by_step('C')
        if b in (self.hC, self.hP) and G('E') is not None:
            for x, (v, st) in phis.items():
                if not st and isinstance(v, Lin) and fz(v) == fz(G('E')):
                    S.vals[('g', 'E')] = sym(('new', x))
                    break

    def reject(self, S):
        S.vals[('g', 'I')] = S.vals[('g', 'I')].add(num(1))
        S.vals[('g', 'J')] = num(0)
        S.user = 'search'

    def accepted(self, S, where):
        G = S.vals
        if S.user == 'rejected':
            raise Violation('a sequence counts as found although a matcher rejected its call (%s)' % where)
        if S.user != 'search':
            raise Violation('a sequence counts as found without being looked for (%s)' % where)
        if G.get(('g', 'J')) is None or not entails(S, G[('g', 'J')].add(sym('M'), -1)):
            raise Violation('a sequence counts as found before all its matchers were asked (%s)' % where)
        S.user = 'found'
        S.vals[('g', 'K')] = num(0)

    # ---- automaton
    def step(self, S, ev):
        fn = self.fn
        G = S.vals
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return False
        w = fn.where(ev[1]) if ev[0] != 'exit' else ''
        if self.collect and S.user == 'complete':
            for k, e in self.each.items():
                st = e.step(G.get(('g', 'each', k)) or e.init, ev)
                if st is None:
                    return False
                G[('g', 'each', k)] = st
                if st[0] == 'done':
                    G[('g', 'kept')] = num(1)
        m = self.pat.moves(ev)
        if m == 'next':
            if S.user in ('search', 'rejected'):
                self.accepted(S, w)
            if S.user != 'found':
                raise Violation('a part of the pattern is passed over (%s)' % w)
            if self.collect and not entails(S, G[('g', 'K')].add(sym('M'), -1)):
                raise Violation('not every call of a found sequence is collected (%s)' % w)
            G[('g', 'E')] = G[('g', 'I')].add(sym('M'))
            for n in ('I', 'J', 'K', 'seq'):
                G.pop(('g', n), None)
            S.user = 'between'
        elif m == 'start':
            if S.user in ('idle', 'complete'):
                if self.collect and S.user == 'complete' and not G.get(('g', 'kept')):
                    raise Violation('the calls of a complete match are not kept (%s)' % w)
                S.user = 'begin'
                for k in [k for k in G if isinstance(k, tuple) and k[:2] in (('g', 'kept'), ('g', 'each'))]:
                    del G[k]
            else:
                raise Violation('the search goes on after a part of the pattern was not found (%s)' % w)
        if ev[0] == 'cond':
            d = self.pat.done(ev[1], ev[2])
            if d is True and S.user in ('between', 'begin'):
                if S.user == 'begin':
                    return False        # an empty pattern is excluded by the interface
                S.user = 'complete'
                G[('g', 'C')] = G[('g', 'C')].add(num(1))
            elif d is True and S.user not in ('complete',):
                raise Violation('the pattern ends in the middle of a part (%s)' % w)
            elif d is False and S.user == 'complete':
                return False
            i = fn.ins[ev[1]]
            if ev[1] in self.asks and G.get(('g', 'pending')) == ev[1]:
                G.pop(('g', 'pending'))
                if ev[2]:
                    G[('g', 'J')] = G[('g', 'J')].add(num(1))
                else:
                    S.user = 'rejected'
            return True
        if ev[0] == 'ins':
            i = fn.ins[ev[1]]
            x = ev[1]
            if x == fn.entry:
                G[('g', 'E')] = num(0)
                G[('g', 'C')] = num(0)
            if x in self.fills:
                if S.user not in ('begin', 'between'):
                    raise Violation('the next part is looked for before the previous one was decided (%s)' % w)
                if ('g', 'E') not in G:
                    raise Violation('the place to look for the next part is not the end of the previous one (%s)' % w)
                if not self.pat.current(i['args'][0]):
                    raise Violation('the part looked for is not the next one of the pattern (%s)' % w)
                seq = S.arg(i, 0)
                S.forget('M')
                if ('g', 'E') not in G and ('g', 'E') not in S.vals:
                    raise Violation('the place to look for the next part is not the end of the previous one (%s)' % w)
                G = S.vals
                if ('g', 'E') not in G:
                    raise Violation('the place to look for the next part is not the end of the previous one (%s)' % w)
                G[('g', 'I')] = G[('g', 'E')]
                G[('g', 'J')] = num(0)
                G[('g', 'seq')] = seq
                S.user = 'search'
            elif x in self.asks:
                if S.user == 'rejected':
                    self.reject(S)
                    G = S.vals
                if S.user != 'search':
                    raise Violation('a matcher is asked outside a search (%s)' % w)
                mt, iv = self.index(S, i['args'][0], 'MB'), self.index(S, i['args'][1], 'AB')
                I, J = G.get(('g', 'I')), G.get(('g', 'J'))
                if mt is None or iv is None or I is None or J is None:
                    raise Violation('a matcher is asked for something that is not a recorded call (%s)' % w)
                if fz(mt) != fz(J):
                    raise Violation('the matcher asked is not the one after the last that accepted (%s)' % w)
                if fz(iv) != fz(I.add(J)):
                    raise Violation('a matcher is not asked for the call at its own position after the start of the candidate (%s)' % w)
                if not entails(S, sym('Z').add(I, -1).add(sym('M'), -1)):
                    raise Violation('a candidate that does not fit in the history is examined (%s)' % w)
                if not entails(S, sym('M').add(J, -1).add(num(-1))):
                    raise Violation('a matcher past the end of the sequence is asked (%s)' % w)
                G[('g', 'pending')] = x
            elif x in self.adds and self.collect:
                self.add(S, x, i, w)
            elif i['op'] == 'store' and self.collect is False or i['op'] == 'store':
                p = fn.arg(x, 1)
                if p[0] == '.' and mm(p[3], r'fakeit::MatchAnalysis$') and i['args'][0].get('w', 0) != 1 and not mm(p[3], 'vector') and p[2] == self.count_field():
                    v = S.arg(i, 0)
                    C = G.get(('g', 'C'))
                    G[('g', 'stored')] = num(1) if C is not None and isinstance(v, Lin) and fz(v) == fz(C) else num(0)
            if i['op'] in ('call', 'invoke') and self.collect:
                la = fn.local_addr(i['args'][0]) if i['args'] else None
                if la and la[0] in self.tmp and not la[1] and mm(cname(i), r'::(vector\(\)|clear\(\))$'):
                    G[('g', 'clean')] = num(1)
        if ev[0] == 'exit' and ev[1] == RET:
            if S.user == 'rejected':
                self.reject(S)
                G = S.vals
            if S.user != 'search':
                raise Violation('the search stops although more matches may follow')
            I = G.get(('g', 'I'))
            if I is None or not entails(S, I.add(sym('M')).add(sym('Z'), -1).add(num(-1))):
                raise Violation('the search stops although a later candidate still fits in the history')
            if not G.get(('g', 'stored')):
                raise Violation('the number of matches reported is not the number found')
        return True

    def count_field(self):
        return self._cf

    def index(self, S, o, base):
        """index of the element a pointer was loaded from"""
        fn = self.fn
        for _ in range(6):
            i = fn.val(o)
            if i is None or i['op'] != 'load':
                return None
            la = fn.local_addr(i['args'][0])
            if la:
                ini = fn._local_inits().get((la[0], ()), [])
                if len(ini) != 1 or la[1]:
                    return None
                o = ini[0][1]['args'][0 if ini[0][0] == 'store' else 1]
                if ini[0][0] != 'store':
                    return None
                continue
            return self.index_of(S, i['args'][0], base)
        return None

    def index_of(self, S, addr, base):
        v = S.val(addr)
        if isinstance(v, Lin) and v.get(base) == 1:
            d = v.add(sym(base), -1)
            return d.scale(Fraction(1, 8))
        return None

    def add(self, S, x, i, w):
        fn = self.fn
        G = S.vals
        where, op = self.adds[x]
        if where == 'matched':
            if S.user != 'complete':
                raise Violation('calls are counted as matched before the pattern matched completely (%s)' % w)
            if op == 'insert' and len(i['args']) >= 4:
                a, b = i['args'][-2:]
                pa, pb = fn.path(a), fn.path(b)
                t = [('local', l) for l in self.tmp]
                if not (base_of(pa)[:2] in t and is_begin(pa, base_of(pa)) and is_end(pb, base_of(pa))):
                    raise Violation('the calls added are not exactly those of the complete match (%s)' % w)
                G[('g', 'kept')] = num(1)
            elif op in VEC_ADD:
                if not any(wk.current(i['args'][1]) for wk in self.flat):
                    raise Violation('the calls added are not exactly those of the complete match (%s)' % w)
            else:
                raise Violation('calls counted as matched are dropped (%s)' % w)
            return
        if op in ('clear',):
            return
        if S.user in ('search', 'rejected'):
            self.accepted(S, w)
            G = S.vals
        if S.user != 'found':
            raise Violation('calls are collected outside a found sequence (%s)' % w)
        if op == 'insert' and len(i['args']) >= 4:
            a, b = (self.index_of(S, o, 'AB') for o in i['args'][-2:])
            if a is None or b is None or fz(a) != fz(G[('g', 'I')]) or fz(b) != fz(G[('g', 'I')].add(sym('M'))):
                raise Violation('the calls collected are not exactly those of the found sequence (%s)' % w)
            G[('g', 'K')] = sym('M')
            return
        if op not in VEC_ADD:
            raise Violation('collected calls are dropped (%s)' % w)
        a = self.index_of(S, i['args'][1], 'AB')
        if a is None:
            a = self.index(S, i['args'][1], 'AB')
        if a is None:
            la = fn.local_addr(i['args'][1])
            ini = fn._local_inits().get((la[0], ()), []) if la and not la[1] else []
            if len(ini) == 1 and ini[0][0] == 'store':
                a = self.index(S, ini[0][1]['args'][0], 'AB')
        K = G.get(('g', 'K'))
        if a is None or K is None or fz(a) != fz(G[('g', 'I')].add(K)):
            raise Violation('the call collected is not the next one of the found sequence (%s)' % w)
        if not entails(S, sym('M').add(K, -1).add(num(-1))):
            raise Violation('more calls are collected than the found sequence has (%s)' % w)
        G[('g', 'K')] = K.add(num(1))

    def run(self, rid, inst):
        ctx, fn = self.ctx, self.fn
        ints = set()
        for i in fn.ins.values():
            if i['op'] == 'store':
                p = fn.arg(i['id'], 1)
                if p[0] == '.' and mm(p[3], r'fakeit::MatchAnalysis$') and p[1][0] == 'arg':
                    ints.add(p[2])
        ctx.anchor(len(ints) == 1, 'the number of matches is not stored in one place: %s' % sorted(ints))
        self._cf = ints.pop()
        self.counters = set()
        for h in (self.hJ, self.hI, self.hK, self.hC, self.hP):
            if h is not None:
                self.counters |= set(q['id'] for q in fn.blocks[h] if q['op'] == 'phi' and q.get('ty') in ('i32', 'i64', 'i16', 'ptr'))
        a = Aff(fn, self.step, 'idle', {}, None, load=self.load, call=self.call, head=self.head, signs=self.signs)
        try:
            a.run()
            ctx.ok(rid, inst)
        except Violation as e:
            ctx.fail(rid, inst, str(e), ['in ' + fn.short()] + getattr(e, 'path', []))
        ctx.stats['automaton_states'] += a.visited
        return self
