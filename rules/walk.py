"""Walks over containers: which loops visit every element of which container once.

A walk knows its container (an access path), recognises the current element, the
condition under which nothing is left, and the step to the next element. Vectors
are recognised by the linear form of the element address, node containers by the
begin/end/increment protocol of their iterators.
"""
from common import *
from fk import *  # noqa

NODE = r'^(?:std::(?:__detail::)?_(?:Node|Rb_tree|List)(?:_const)?_iterator|std::(?:unordered_)?(?:multi)?(?:set|map)|std::list|std::operator[!=]=|std::__detail::operator[!=]=)'


def enters(fn, ev, block):
    """source block when the event is control passing into `block`, else None"""
    if ev[0] == 'ins':
        i = fn.ins[ev[1]]
        if i['op'] == 'br' and 'cond' not in i and i['succ'][0] == block:
            return fn.block_of[ev[1]]
    elif ev[0] == 'edge':
        i = fn.ins[ev[1]]
        if ev[2].startswith('br') and i['succ'][int(ev[2][2:])] == block:
            return fn.block_of[ev[1]]
        if ev[2] in ('normal', 'unwind') and i.get(ev[2]) == block:
            return fn.block_of[ev[1]]
    return None


def vec_owners(fn):
    out = set()
    for i in fn.ins.values():
        if i['op'] == 'getelementptr' and i.get('field') == '_M_finish':
            p = fn.path({'i': i['id']})
            if p[0] == '.':
                out.add((p[1], elem_size(p[3])))
    return out


def elem_size(rec):
    m = re.search(r'_Vector_base<(.*)>::_Vector_impl_data', rec or '')
    if not m:
        return None
    t = split_args(m.group(1))[0].strip()
    if t.endswith('*'):
        return 8
    if t.startswith('std::shared_ptr'):
        return 16
    return None


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(':
            d += 1
        if c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


class VecWalk:
    def __init__(self, fn, owner, size, phi, order):
        self.fn, self.owner, self.size, self.phi, self.order = fn, owner, size, phi, order
        self.block = fn.block_of[phi]
        self.body = loop_blocks(fn, phi)
        self.at = None

    def current(self, o):
        """is the operand (a pointer or element value) the current element, or its address?"""
        a = element_address(self.fn, o, self.owner)
        if a is None:
            c = copied(self.fn, o)
            return c is not None and self.current(c)
        p = position(self.fn, a, self.owner)
        return p is not None and p[2] == self.phi and self.fn_order(p) == self.order

    def fn_order(self, p):
        first, step, phi, l = p
        if step == self.size and first == Lin({'B': 1}):
            return 'forward'
        if step == -self.size and first == Lin({'E': 1, None: -self.size}):
            return 'backward'
        return None

    def done(self, cid, val):
        """True: nothing left, False: an element is left, None: says nothing"""
        if self.at is None or self.fn.ins[cid]['op'] != 'icmp':
            return None
        if exhausts(self.fn, self.at, self.owner, self.size, cid, val):
            return True
        if exhausts(self.fn, self.at, self.owner, self.size, cid, not val):
            return False
        return None

    def moves(self, ev):
        """'start' / 'next' when the event begins the walk or steps on"""
        s = enters(self.fn, ev, self.block)
        if s is None:
            return None
        return 'next' if s in self.body else 'start'


def copied(fn, o):
    """value a local (given by address or loaded) was made from, when there is one"""
    i = fn.val(o)
    if i is None or i['op'] not in ('alloca', 'load'):
        return None
    la = fn.local_addr(o if i['op'] == 'alloca' else i['args'][0])
    if la is None or la[1]:
        return None
    ini = [x for x in fn._local_inits().get((la[0], ()), []) if not (x[0] == 'store' and x[1]['args'][0].get('null'))]
    if len(ini) != 1 or ini[0][0] != 'store':
        return None
    return ini[0][1]['args'][0]


class NodeWalk:
    order = None

    def __init__(self, fn, owner, cur, begins, ends):
        self.fn, self.owner, self.cur, self.begins, self.ends = fn, owner, cur, begins, ends

    def is_cur(self, o):
        la = self.fn.local_addr(o)
        return la is not None and la[0] == self.cur

    def current(self, o):
        fn = self.fn
        for _ in range(30):
            i = fn.val(o)
            if i is None:
                return False
            if i['op'] in ('call', 'invoke'):
                return mm(cname(i), r'iterator.*::operator(\*|->)\(\)') is not None and self.is_cur(i['args'][0])
            if i['op'] == 'alloca':
                ini = fn._local_inits().get((i['id'], ()), [])
                if len(ini) != 1 or ini[0][0] == 'other':
                    return False
                o = ini[0][1]['args'][0 if ini[0][0] == 'store' else 1]
            elif i['op'] == 'load':
                la = fn.local_addr(i['args'][0])
                o = i['args'][0]
                if la and not la[1]:
                    ini = fn._local_inits().get((la[0], ()), [])
                    if len(ini) != 1 or ini[0][0] == 'other':
                        return False
                    o = ini[0][1]['args'][0 if ini[0][0] == 'store' else 1]
            elif i['op'] == 'getelementptr':
                o = i['args'][0]
            else:
                return False
        return False

    def done(self, cid, val):
        i = self.fn.ins[cid]
        if i['op'] not in ('call', 'invoke') or len(i['args']) < 2:
            return None
        n = cname(i)
        ne, eq = mm(n, r'operator!='), mm(n, r'operator==')
        if not (ne or eq):
            return None
        a = [self.fn.local_addr(x) for x in i['args'][:2]]
        if any(x is None for x in a):
            return None
        s = [x[0] for x in a]
        if self.cur not in s or not (set(s) - {self.cur}) <= self.ends or len(set(s)) != 2:
            return None
        return (not val) if ne else val

    def moves(self, ev):
        if ev[0] == 'ins':
            i = self.fn.ins[ev[1]]
            if ev[1] in self.begins:
                return 'start'
            if i['op'] in ('call', 'invoke') and mm(cname(i), r'iterator.*::operator\+\+\(') and self.is_cur(i['args'][0]):
                return 'next'
        return None


def walks(fn):
    """all walks of fn that start at one end of their container and step by one element"""
    out = []
    for owner, size in vec_owners(fn):
        found = {}
        for x, i in fn.ins.items():
            if i['op'] not in ('load', 'call', 'invoke'):
                continue
            for at in i['args'] if i['op'] != 'load' else i['args'][:1]:
                if fn.val(at) is None:
                    continue
                p = position(fn, at, owner)
                if p is None or p[2] is None:
                    continue
                sz = size or abs(p[1])
                w = VecWalk(fn, owner, sz, p[2], None)
                o = w.fn_order(p)
                if o is None:
                    continue
                w.order, w.at = o, at
                if (p[2], o) not in found:
                    found[(p[2], o)] = w
        out += found.values()
    # node containers
    loc = {}
    for x, i in fn.ins.items():
        if i['op'] == 'store':
            la = fn.local_addr(i['args'][1])
            v = fn.val(i['args'][0])
            if la and v is not None and v['op'] in ('call', 'invoke'):
                m = re.search(r'::(c?begin|c?end)\(\)( const)?$', cname(v))
                if m and v['args']:
                    loc.setdefault(la[0], []).append((x, m.group(1).lstrip('c'), fn.path(v['args'][0])))
    begins = {a: l for a, l in loc.items() if all(q[1] == 'begin' for q in l)}
    for a, l in begins.items():
        owners = set(q[2] for q in l)
        if len(owners) != 1:
            continue
        ow = owners.pop()
        ends = set(b for b, m in loc.items() if all(q[1] == 'end' and q[2] == ow for q in m))
        # the cursor is only moved by ++
        if any(not mm(cname(fn.ins[k]), r'operator(\*|->|\+\+|!=|==)|^llvm\.') for k in uses(fn, a)):
            continue
        if ends:
            out.append(NodeWalk(fn, ow, a, set(q[0] for q in l), ends))
    return out


def uses(fn, aid):
    """calls that get the address of the local"""
    return [x for x, i in fn.ins.items() if i['op'] in ('call', 'invoke') and any((fn.local_addr(o) or (None,))[0] == aid for o in i['args'] if isinstance(o, dict))]


class Each:
    """state machine: every element of the walk is dealt with as `expect(flag, n)` demands

    state (phase, flag, n): phase idle/at/done, flag = what is known of the current
    element (set by classify), n = actions on it so far."""

    def __init__(self, walk, actions, classify=None, expect=None, noun='element'):
        self.w, self.actions = walk, actions
        self.classify = classify or (lambda c, v: None)
        self.expect = expect or (lambda flag, n: None if n == 1 else 'handled %d times' % n)
        self.noun = noun
        self.init = ('idle', None, 0)

    def leave(self, st):
        if st[0] == 'at':
            e = self.expect(st[1], st[2])
            if e:
                raise Violation('%s %s' % (self.noun, e))

    def step(self, st, ev):
        if ev[0] == 'cond':
            d = self.w.done(ev[1], ev[2])
            if d is not None:
                if d:
                    self.leave(st)
                    return ('done', None, 0)
                if st[0] != 'at':
                    return ('at', None, 0)
                return st
            f = self.classify(ev[1], ev[2])
            if f is not None and st[0] == 'at':
                if st[1] is not None and st[1] != f:
                    return None
                return ('at', f, st[2])
            return st
        m = self.w.moves(ev)
        if m == 'next':
            self.leave(st)
            st = ('idle', None, 0)
        elif m == 'start':
            st = ('idle', None, 0)
        if ev[0] == 'ins' and ev[1] in self.actions:
            if st[0] == 'done':
                raise Violation('%s handled after the end of the walk' % self.noun)
            # a walk whose emptiness test is elsewhere: the element is there
            return ('at', st[1], min(st[2] + 1, 2))
        return st


def pick(fn, test):
    """the walks for which test(walk) holds"""
    return [w for w in walks(fn) if test(w)]


def forms(fn, o, owner, depth=0):
    """linear forms a value can have, choices made outside loops written out; None: too many"""
    i = fn.val(o)
    if i is not None and i['op'] in ('zext', 'sext', 'trunc', 'freeze') and not narrows(i):
        return forms(fn, i['args'][0], owner, depth)
    if i is not None and i['op'] in ('select', 'phi') and depth < 4:
        alts = i['args'][1:] if i['op'] == 'select' else [x['v'] for x in i['inc']]
        out = []
        for a in alts:
            r = forms(fn, a, owner, depth + 1)
            if r is None:
                return None
            out += r
        return out if len(out) <= 8 else None
    return [norm(fn, lin(fn, o), owner)]


def skipping(fn, test):
    """places that use elements of a container in a loop which can begin past the first (or before the last) element"""
    out = []
    for owner, size in vec_owners(fn):
        if not test(owner):
            continue
        for x, i in fn.ins.items():
            if i['op'] not in ('load', 'call', 'invoke'):
                continue
            for at in i['args'] if i['op'] != 'load' else i['args'][:1]:
                if fn.val(at) is None or position(fn, at, owner) is not None:
                    continue
                l = norm(fn, lin(fn, at), owner)
                phis = [s for s in l if isinstance(s, tuple) and s[0] == 'phi' and len(s) == 2]
                if len(phis) != 1 or ('B' not in l and 'E' not in l):
                    continue
                pid = phis[0][1]
                body = loop_blocks(fn, pid)
                first, steps = [], set()
                for inc in fn.ins[pid]['inc']:
                    v = norm(fn, lin(fn, inc['v']), owner)
                    if v.get(phis[0]) == 1:
                        steps.add(v.add(Lin({phis[0]: 1}), -1).get(None, 0) * l[phis[0]])
                        continue
                    fs = forms(fn, inc['v'], owner)
                    first = None if fs is None or first is None else first + [Lin({k: c for k, c in l.items() if k != phis[0]}).add(f, l[phis[0]]) for f in fs]
                if not first or len(steps) != 1 or len(body) < 1:
                    continue
                st = steps.pop()
                sz = size or abs(st)
                for f in first:
                    if set(f) <= {'B', None} and f.get('B') == 1 and st == sz and f.get(None, 0) >= sz:
                        out.append((owner, x))
                    if set(f) <= {'E', None} and f.get('E') == 1 and st == -sz and f.get(None, 0) <= -2 * sz:
                        out.append((owner, x))
    return out


def searched(ctx, m):
    """container of calls the matchers are asked about"""
    out = set()
    for k in m.calls(r'fakeit::Invocation::Matcher::matches\('):
        o = m.ins[k]['args'][1]
        for owner, size in vec_owners(m):
            if any(owner == b for b in bases(m, o)):
                out.add(owner)
    ctx.anchor(len(out) == 1, 'list of calls searched not found: %s' % [render(x) for x in out])
    return out.pop()


def bases(m, o, d=0):
    p = m.path(o)
    while isinstance(p, tuple) and p[0] in ('.', '*', 'adj', 'at', 'gep0'):
        yield p
        p = p[1]
    yield p
    if isinstance(p, tuple) and p[0] == 'phi' and d < 4 and p[1] in m.ins:
        for x in m.ins[p[1]]['inc']:
            for q in bases(m, x['v'], d + 1):
                yield q
