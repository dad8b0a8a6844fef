"""What containers of calls hold: a dataflow over container operations.

The content of a container is a set of atoms with an order flag. Atoms:
  ('in', P)        what was in it when the function started
  ('of', P)        all calls of all sources listed in the container P
  ('of1', P)       all calls of the one source P
  ('elem', V)      one given value
  ('unmarked', a) / ('marked', a)   those elements of a without / with the mark
  ('part', a)      some elements of a
  ('dup', a)       elements of a more than once
Loops are summarised by the walks they implement: a walk over A that adds every
element (or every unmarked element) to B moves the content of A to B when the
walk has run to its end; a loop left in any other way moves nothing.
"""
from walk import *

ASK = r'fakeit::(ActualInvocationsSource|InvocationsSourceProxy|[\w:]*Source|[\w:]*Mock\w*<.*>)::getActualInvocations\('
CONT = r'^([\w:<>\*&, ]* )?std::(unordered_set|set|vector|list|deque|multiset)<'
ADDERS = ('insert', 'emplace', 'push_back', 'emplace_back', 'emplace_hint', 'push_front', 'emplace_front')
READERS = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'front', 'back', 'operator[]', 'at', 'find', 'count', 'data', 'reserve', 'max_size', 'capacity')
EMPTY = (frozenset(), True)


def ctype(n):
    m = re.search(r'std::(unordered_set|set|vector|list|deque|multiset)<', n)
    return m.group(1) if m else None


def element(n):
    """element type of the container a member function belongs to"""
    m = re.search(r'std::(?:unordered_set|set|vector|list|deque|multiset)<', n)
    return split_args(balanced(n, m.end()))[0].strip() if m else None


def balanced(n, k):
    d, out = 1, ''
    while k < len(n):
        c = n[k]
        if c in '<(':
            d += 1
        if c in '>)':
            d -= 1
            if d == 0:
                break
        out += c
        k += 1
    return out


def set_args(n):
    m = re.search(r'std::(?:unordered_set|set|vector|list|deque|multiset)<', n)
    return [a.strip() for a in split_args(balanced(n, m.end()))]


class Flow:
    """of: regex on the element type of the containers followed; ask: regex of the
    calls by which a source adds its elements to a container given as argument"""

    def __init__(self, fn, of=r'^fakeit::Invocation ?\*$', ask=ASK, askarg=1, mark=None, at=None, ordered=True):
        self.fn, self.of, self.mark, self.at, self.askre, self.askarg = fn, of, mark, at, ask, askarg
        self.ordered = ordered
        self.walks = walks(fn)
        self.ops = {}
        self.scan()
        self.moves = {}
        self.classify()

    # ---- operations
    def scan(self):
        fn = self.fn
        for x in fn.order:
            i = fn.ins[x]
            if i['op'] not in ('call', 'invoke'):
                continue
            n = cname(i)
            if mm(n, r'^llvm\.'):
                continue
            if mm(n, self.askre):
                self.ops[x] = ('ask', fn.arg(x, self.askarg), i['args'][0])
                continue
            if mm(n, r'^[^(]*std::(stable_)?sort<') and len(i['args']) >= 2:
                o = self.range_owner(i['args'][0], i['args'][1])
                if o is not None:
                    self.ops[x] = ('sort', o, len(split_args(balanced(n, n.index('sort<') + 5))) > 1 and not mm(n, r'std::(less|greater)<'))
                continue
            if not mm(n, CONT) or not i['args']:
                continue
            el = element(n)
            if not mm(el, self.of):
                continue
            m = method_of(n)
            t = fn.arg(x, 0)
            a = i['args']
            if m == ctype(n):
                r = None
                if len(a) >= 3:
                    r = self.range_owner(a[1], a[2])
                if r is not None:
                    self.ops[x] = ('range', t, r, True, self.kind(n))
                elif len(a) >= 2 and mm(n, r'::%s\((std::%s<.*>( const)?&&?)' % (m, m)):
                    self.ops[x] = ('copy', t, fn.arg(x, 1))
                elif len(a) >= 3 and m in ('vector', 'list', 'deque', 'set', 'unordered_set', 'multiset') and mm(n, r'iterator'):
                    self.ops[x] = ('top', t)
                else:
                    self.ops[x] = ('new', t, self.kind(n))
            elif m == 'operator=':
                self.ops[x] = ('copy', t, fn.arg(x, 1))
            elif m == 'clear':
                self.ops[x] = ('new', t, self.kind(n))
            elif m == 'swap':
                self.ops[x] = ('swap', t, fn.arg(x, 1))
            elif m in ADDERS or m == 'assign':
                r = None
                if len(a) >= 3:
                    r = self.range_owner(a[-2], a[-1])
                if r is not None:
                    self.ops[x] = ('range', t, r, m == 'assign', self.kind(n))
                elif m == 'assign':
                    self.ops[x] = ('top', t)
                else:
                    front = m in ('push_front', 'emplace_front') or (m == 'insert' and ctype(n) in ('vector', 'list', 'deque'))
                    self.ops[x] = ('add', t, a[-1], self.kind(n), front)
            elif m.startswith('~') or m in READERS:
                pass
            else:
                self.ops[x] = ('top', t)

    def kind(self, n):
        """how a container keeps its elements: 'list', 'bag' (no order), 'sorted', 'otherorder'"""
        c = ctype(n)
        if c in ('vector', 'list', 'deque'):
            return 'list'
        if c == 'unordered_set':
            return 'bag'
        return 'otherorder' if mm(set_args(n)[1] if len(set_args(n)) > 1 else 'std::less', r'^std::(less|greater)') else 'sorted'

    def range_owner(self, a, b):
        pa, pb = self.end_of(a), self.end_of(b)
        if pa and pb and pa[1] == pb[1] and (pa[0], pb[0]) == ('begin', 'end'):
            return pa[1]
        return None

    def end_of(self, o, d=0):
        fn = self.fn
        i = fn.val(o)
        if i is None or d > 8:
            return None
        p = fn.path(o)
        if p[0] == '*':
            if p[1][0] == '.' and p[1][2] == '_M_finish':
                return ('end', p[1][1])
            for owner, _ in vec_owners(fn):
                if is_begin(p, owner):
                    return ('begin', owner)
        if i['op'] in ('call', 'invoke'):
            m = re.search(r'::(c?begin|c?end)\(\)( const)?$', cname(i))
            if m:
                return (m.group(1).lstrip('c'), fn.path(i['args'][0]))
            return None
        la = None
        if i['op'] == 'load':
            la = fn.local_addr(i['args'][0])
        elif i['op'] in ('alloca', 'getelementptr'):
            la = fn.local_addr(o)
        if la:
            ini = fn._local_inits().get((la[0], ()), [])
            if len(ini) == 1 and ini[0][0] in ('store', 'copy'):
                return self.end_of(ini[0][1]['args'][0 if ini[0][0] == 'store' else 1], d + 1)
        return None

    # ---- loops
    def classify(self):
        """for every walk and target: which elements are moved"""
        fn = self.fn
        for k, w in enumerate(self.walks):
            acts = {}
            for x, op in self.ops.items():
                if op[0] == 'add' and w.current(op[2]):
                    acts.setdefault(('add', op[1]), set()).add(x)
                elif op[0] == 'ask' and w.current(op[2]):
                    acts.setdefault(('ask', op[1]), set()).add(x)
            for t, xs in acts.items():
                self.moves[(k, t)] = (xs, self.kind_of(w, xs))
        self.inloop = set(x for xs, _ in self.moves.values() for x in xs)

    def kind_of(self, w, xs):
        fn = self.fn
        want = [('all', lambda f, n: None if n == 1 else 'x')]
        if self.mark:
            want += [('unmarked', lambda f, n: None if (f is False and n == 1) or (f is True and n == 0) else 'x'),
                     ('marked', lambda f, n: None if (f is True and n == 1) or (f is False and n == 0) else 'x')]
        for name, expect in want:
            e = Each(w, xs, expect=expect)
            if self.mark:
                e.classify = lambda c, v: v if self.mark(fn, c, w) else None

            def step(st, ev):
                if ev[0] == 'edge' and ev[2] == 'unwind':
                    return None
                return e.step(st, ev)
            try:
                Sim(fn, step, e.init).run()
                return name
            except Violation:
                continue
        return 'part'

    # ---- contents
    def moved(self, how, atoms):
        if how == 'all':
            return atoms
        return frozenset((how, a) for a in atoms)

    def run(self, ctx, rid, inst, init=None):
        fn = self.fn
        st0 = {}
        for x, op in self.ops.items():
            for c in (op[1],) + ((op[2],) if op[0] in ('range', 'copy', 'swap') else ()):
                if base_of(c)[0] != 'local':
                    st0[c] = (frozenset([('in', c)]), False)
        for w in self.walks:
            if base_of(w.owner)[0] != 'local':
                st0.setdefault(w.owner, (frozenset([('in', w.owner)]), True if not isinstance(w, NodeWalk) else False))
        st0.update(init or {})
        kinds = {}
        for x, op in self.ops.items():
            if op[0] in ('new', 'add', 'range'):
                kinds[op[1]] = op[3] if op[0] == 'add' else op[2] if op[0] == 'new' else op[4]
        self.kinds = kinds

        def put(C, t, atoms, order):
            old, oo = C.get(t, EMPTY)
            k = kinds.get(t, 'list')
            if k == 'list':
                dup = old & atoms
                new = old | atoms | frozenset(('dup', a) for a in dup)
                return dict(C, **{}) | {t: (new, order and not old)}
            return dict(C) | {t: (old | atoms, k == 'sorted')}

        def step(st, ev):
            C = dict(st)
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            if ev[0] == 'cond':
                for k, w in enumerate(self.walks):
                    if w.done(ev[1], ev[2]) is True:
                        for (j, t), (xs, how) in self.moves.items():
                            if j != k:
                                continue
                            src, so = C.get(w.owner, EMPTY)
                            if t[0] == 'ask':
                                atoms = self.moved(how, frozenset([('of', w.owner)]) if base_of(w.owner)[0] != 'local' else frozenset(('of', a) for a in src))
                                C = put(C, t[1], atoms, False)
                            else:
                                front = any(self.ops[x][4] for x in xs if self.ops[x][0] == 'add')
                                C = put(C, t[1], self.moved(how, src), so and w.order != 'backward' and not front)
            elif ev[0] == 'ins' and ev[1] in self.ops:
                x = ev[1]
                op = self.ops[x]
                if op[0] == 'new':
                    C[op[1]] = EMPTY
                elif op[0] == 'copy':
                    C[op[1]] = C.get(op[2], EMPTY)
                elif op[0] == 'swap':
                    C[op[1]], C[op[2]] = C.get(op[2], EMPTY), C.get(op[1], EMPTY)
                elif op[0] == 'range':
                    if op[3]:
                        C[op[1]] = EMPTY
                    src, so = C.get(op[2], EMPTY)
                    C = put(C, op[1], src, so)
                elif op[0] == 'sort':
                    a, o = C.get(op[1], EMPTY)
                    C[op[1]] = (a, op[2])
                elif op[0] == 'top':
                    a, o = C.get(op[1], EMPTY)
                    C[op[1]] = (frozenset(('part', y) for y in a) | {('unknown',)}, False)
                elif op[0] == 'ask' and x not in self.inloop:
                    C = put(C, op[1], frozenset([('of1', fn.path(op[2]))]), False)
                elif op[0] == 'add' and x not in self.inloop:
                    C = put(C, op[1], frozenset([('elem', self.value(op[2]))]), True)
            if self.at:
                self.at(ev, C)
            return tuple(sorted(C.items(), key=repr))
        return ctx.sim(rid, fn, step, tuple(sorted(st0.items(), key=repr)), instance=inst)

    def value(self, o):
        c = copied(self.fn, o)
        for _ in range(4):
            if c is None:
                break
            o = c
            c = copied(self.fn, o)
        la = self.fn.local_addr(o)
        if la:
            return self.fn.local_source(la[0], la[1], 0) or self.fn.path(o)
        return self.fn.path(o)


def show_atoms(c):
    return '{%s}%s' % (', '.join(sorted(show_atom(a) for a in c[0])), ' in call order' if c[1] else '')


def show_atom(a):
    if a[0] in ('in', 'of', 'of1', 'elem'):
        return '%s %s' % ({'in': 'previous content of', 'of': 'calls of all', 'of1': 'calls of', 'elem': 'element'}[a[0]], render(a[1]) if a[1][0] not in ('in', 'elem', 'of') else show_atom(a[1]))
    if a == ('unknown',):
        return 'unknown'
    return '%s of (%s)' % (a[0], show_atom(a[1]))


COMPARE = r'\((fakeit::)?Invocation( const)? ?\*, (fakeit::)?Invocation( const)? ?\*\)( const)?$'


def comparators(ctx, rid, u, label='cmp'):
    """every comparison of two calls is 'smaller number first'"""
    fs = u.get(label, 0)
    for f in fs:
        n = len(f.params)
        rets = [i for i in f.ins.values() if i['op'] == 'ret' and i['args']]
        good = bool(rets)
        for r in rets:
            i = f.val(r['args'][0])
            good = good and i is not None and i['op'] == 'icmp'
            if good:
                a, b = (f.path(x) for x in i['args'])
                p = i['pred']
                if p == 'ugt':
                    a, b, p = b, a, 'ult'
                good = p == 'ult' and all(q[0] == '*' and q[1][0] == '.' and q[1][2] in numbers(u) for q in (a, b)) and base_of(a)[:2] == ('arg', n - 2) and base_of(b)[:2] == ('arg', n - 1)
        ctx.require(rid, 'comparison at ' + f.where(), good, 'calls are not compared by "smaller sequence number first" (%s)' % f.where())
    return len(fs)


def marktest(flag):
    def t(fn, x, w):
        i = fn.ins[x]
        if i['op'] != 'load':
            return False
        p = fn.arg(x, 0)
        return p[0] == '.' and (p[3], p[2]) == flag and w.current(base_operand(fn, i['args'][0]))
    return t


def base_operand(fn, o):
    i = fn.val(o)
    while i is not None and i['op'] == 'getelementptr':
        o = i['args'][0]
        i = fn.val(o)
    return o


def flag_of(ctx, u):
    q = u.one('mark')
    for x, i in q.ins.items():
        if i['op'] == 'ret':
            for v in deref_chain(q, i['args'][0]):
                p = q.path(v['args'][0])
                if p[0] == '.':
                    return (p[3], p[2])
    ctx.anchor(False, 'flag behind the is-verified query not found')


def deref_chain(f, o):
    i = f.val(o)
    while i is not None and i['op'] in ('trunc', 'zext', 'load', 'icmp'):
        if i['op'] == 'load':
            yield i
            return
        i = f.val(i['args'][0])
