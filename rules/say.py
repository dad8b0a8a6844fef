"""What a text-producing function puts into its result, followed with affine values.

Strings and streams are places; their content is the sequence of pieces put in. In a
function with loops only the first occurrence of a piece is kept, and the elements of
a list are counted by a ghost that must agree with the index at every element.
Text that was made but never put anywhere is reported.
"""
from aff import *
from common import *

STR = r'^(?:[\w:<>\*&, \[\]]* )?std::(?:__cxx11::)?basic_string<'
STREAM = r'^(?:[\w:<>\*&, \[\]]* )?std::(?:(?:__cxx11::)?basic_(?:o|io)?(?:string)?stream<|ostream\b)'
INSERT = r'(?:^|[ :])operator<< ?(<.*>)?\('
SKIP = r'^llvm\.|^__cxa_|^__clang|allocator.*::~?(__new_)?allocator\('


def addr(fn, o):
    """(base, byte offset) of an address; base is ('p', k), ('a', alloca) or ('i', instruction)"""
    n = 0
    for _ in range(60):
        if 'p' in o:
            return ('p', o['p']), n
        i = fn.val(o)
        if i is None:
            return None
        if i['op'] == 'alloca':
            return ('a', i['id']), n
        if i['op'] == 'getelementptr' and i.get('off') is not None:
            n += i['off']
        elif i['op'] not in ('bitcast', 'freeze'):
            return ('i', i['id']), n
        o = i['args'][0]
    return None


class Say:
    """vecs: {name: (param, offset)}; fields: {(param, offset): value}; named(S, i, k) -> piece of a call argument or None;
    made(S, i) -> piece of the text a call returns; elem(name, i) -> operand of the list element a call describes"""

    def __init__(self, fn, vecs=None, fields=None, region=None, made=None, named=None, bound=None, elems=None, cast=None):
        self.fn, self.vecs, self.fields = fn, vecs or {}, fields or {}
        self.region = region
        self.made, self.named = made or (lambda s, S, i: None), named or (lambda s, S, o: None)
        self.bound, self.elems = bound or {}, elems or {}
        self.castv = cast or {}
        self.copies = self._copies()
        self.loops = bool(Aff(fn, lambda S, e: True)._heads())
        self.out = []

    def _copies(self):
        fn = self.fn
        m = {}
        for x in fn.order:
            i = fn.ins[x]
            if i['op'] in ('call', 'invoke') and len(i['args']) == 2 and mm(cname(i), r'std::vector<') and is_copy_ctor(cname(i)):
                a, b = addr(fn, i['args'][0]), addr(fn, i['args'][1])
                if a and b and a[0][0] == 'a':
                    m[a] = b
        return m

    def vec(self, a):
        """(list name, offset inside the vector object) of an address"""
        for d in (0, 8, 16):
            b = (a[0], a[1] - d)
            for _ in range(5):
                for n, v in self.vecs.items():
                    if b == (('p', v[0]), v[1]):
                        return n, d
                if b not in self.copies:
                    break
                b = self.copies[b]
        return None

    def load(self, S, i):
        a = addr(self.fn, i['args'][0])
        if a is None:
            return None
        v = self.vec(a)
        if v is not None:
            b = sym(('B', v[0]))
            return b if v[1] == 0 else b.add(sym(('N', v[0])), 8) if v[1] == 8 else None
        if a[0][0] == 'p' and (a[0][1], a[1]) in self.fields:
            return self.fields[(a[0][1], a[1])]
        return None

    def call(self, S, i):
        n = cname(i)
        if n == '__dynamic_cast':
            t = re.sub(r'^typeinfo for ', '', i['args'][2].get('d', ''))
            r = self.castv.get('call') and self.castv['call'](self, S, i, t)
            if r is not None:
                return r
            return S.arg(i, 0)
        if mm(n, r'^(?:[\w:<>\*&, \[\]]* )?std::vector<') and i['args']:
            a = addr(self.fn, i['args'][1 if i.get('sret') is not None else 0])
            v = self.vec(a) if a else None
            if v and v[1] == 0:
                m = method_of(n)
                b = sym(('B', v[0]))
                if m == 'size':
                    return sym(('N', v[0]))
                if m in ('begin', 'cbegin', 'data'):
                    return b
                if m in ('end', 'cend'):
                    return b.add(sym(('N', v[0])), 8)
                if m in ('operator[]', 'at'):
                    k = S.arg(i, 1)
                    if isinstance(k, Lin):
                        return b.add(k, 8)
        return None

    def index(self, S, o):
        """(list, index form) when the operand is an element of one of the lists"""
        i = self.fn.val(o)
        for _ in range(10):
            if i is None:
                return None
            if i['op'] == 'call' and cname(i) == '__dynamic_cast' or i['op'] in ('bitcast', 'freeze'):
                i = self.fn.val(i['args'][0])
                continue
            if i['op'] == 'getelementptr' and i.get('off') is not None:
                i = self.fn.val(i['args'][0])
                continue
            break
        if i is None or i['op'] != 'load':
            return None
        a = S.arg(i, 0)
        if not isinstance(a, Lin):
            return None
        for n in self.vecs:
            if a.get(('B', n)) == 1:
                r = Lin(a)
                del r[('B', n)]
                return n, r.scale(Fraction(1, 8))
        return None

    # ---- content
    def place(self, o):
        fn = self.fn
        n = 0
        for _ in range(60):
            if 'p' in o:
                return ('p', o['p'])
            i = fn.val(o)
            if i is None:
                return None
            if i['op'] == 'alloca':
                return ('a', i['id'])
            if i['op'] == 'getelementptr' and i.get('off') is not None or i['op'] in ('bitcast', 'freeze'):
                o = i['args'][0]
                continue
            if i['op'] in ('call', 'invoke'):
                c = cname(i)
                if i.get('sret') is None and i['args'] and (mm(c, INSERT) or mm(c, STR) and method_of(c) in ('operator=', 'append', 'operator+=', 'assign', 'c_str', 'data', 'insert') or mm(c, STREAM)):
                    o = i['args'][0]
                    continue
            return None
        return None

    def piece(self, S, o):
        """pieces of something put into a text"""
        fn = self.fn
        p = self.named(self, S, o)
        if p is not None:
            return (p,)
        q = self.place(o)
        C, un = S.user
        C = dict(C)
        if q is not None and q in C:
            return C[q]
        if 'c' in o:
            return (('lit', chr(o['c'] & 255)) if 32 <= o['c'] < 127 else ('num', o['c']),)
        t = fn.path(o)
        if t[0] == 'global':
            return (('lit', t[2].rstrip('\0')),) if len(t) > 2 and t[2] is not None else ()
        if t[0] == 'sel':
            pass
        v = S.val(o)
        i = fn.val(o)
        if i is not None and i['op'] in ('select', 'phi') and i.get('ty') == 'ptr':
            # literal chosen earlier on this path
            if isinstance(v, Lin) and len(v) == 1:
                k = list(v)[0]
                if isinstance(k, tuple) and k and k[0] == 'global' and k[2] is not None:
                    return (('lit', k[2].rstrip('\0')),)
        if isinstance(v, Lin):
            return (('val', tuple(fz(v))),)
        return (('val', t),)

    def put(self, S, q, pieces, keep=True, fresh=True):
        C, un = dict(S.user[0]), set(S.user[1])
        old = C.get(q, ()) if keep else ()
        new = old + tuple(pieces)
        if self.loops:
            seen = []
            for x in new:
                if x not in seen:
                    seen.append(x)
            new = tuple(seen)
        if len(new) > 80:
            raise AnchorError('%s: text too long to follow' % self.fn.short())
        C[q] = new
        if any(x[0] != 'lit' for x in new):
            un.add(q)
        S.user = (frozenset(C.items()), frozenset(un))

    def used(self, S, o):
        q = self.place(o)
        if q is not None:
            S.user = (S.user[0], S.user[1] - {q})

    def element(self, S, name, idx, x):
        k = ('F', 'next', name)
        nxt = S.mem.get(k, Lin())
        d = idx.add(nxt, -1)
        if d:
            raise Violation('%s: element %s of the list is shown where element %s is due' % (self.fn.where(x), show(idx), show(nxt)))
        b = self.bound[name]
        g = self.aff.signs(S, idx.add(b, -1))
        if (0 in g or g == {1}) and self.possible(S):
            raise Violation('%s: an element beyond the last one to be shown' % self.fn.where(x))
        S.mem[k] = idx.add(num(1))

    def possible(self, S):
        """elements are shown in order and never at the bound, so no more than that many were shown"""
        C = dict(S.user[0]).values()
        for n, b in self.bound.items():
            g = S.mem[('F', 'next', n)].add(b, -1)
            if self.aff.signs(S, b) == {1} and self.aff.signs(S, g) <= {0, 1} and not any(('elem', n) in c for c in C):
                return False
            for k, f in S.facts.items():
                if k[0] == 'l':
                    e = Lin(dict(k[1]))
                    for c in [1] * (1 not in f) + [-1] * (-1 not in f):
                        d = self.aff.signs(S, g.add(e, c))
                        if d == {1} or d <= {0, 1} and 0 not in self.aff.signs(S, g):
                            return False
        return True

    def ins(self, S, x):
        fn = self.fn
        i = fn.ins[x]
        if i['op'] not in ('call', 'invoke'):
            return
        n = cname(i)
        a = i['args']
        if not a or mm(n, SKIP):
            return
        sret = i.get('sret') is not None
        m = method_of(n)
        if sret:
            q = self.place(a[0])
            if q is None:
                return
            p = self.made(self, S, i)
            if p is not None:
                self.put(S, q, (p,), keep=False)
                return
            if mm(n, STREAM) and m == 'str':
                c = self.piece(S, a[1])
                self.used(S, a[1])
                self.put(S, q, c, keep=False)
                return
            if mm(n, r'std::operator\+ ?<'):
                c = self.piece(S, a[1]) + self.piece(S, a[2])
                self.used(S, a[1])
                self.used(S, a[2])
                self.put(S, q, c, keep=False)
                return
            if mm(n, r'std::(__cxx11::)?to_string') or mm(n, r'basic_string<|string'):
                c = ()
                for o in a[1:]:
                    c += self.piece(S, o)
                    self.used(S, o)
                self.put(S, q, c, keep=False)
            return
        if '::~' in n:
            q = self.place(a[0])
            C, un = dict(S.user[0]), set(S.user[1])
            if q in un:
                raise Violation('%s: text is made but not shown' % fn.where(x))
            C.pop(q, None)
            S.user = (frozenset(C.items()), frozenset(un))
            return
        if mm(n, STREAM) and m == 'str' and len(a) == 2:
            q = self.place(a[0])
            if q in S.user[1]:
                raise Violation('%s: text is made but not shown' % fn.where(x))
            self.put(S, q, self.piece(S, a[1]), keep=False)
            return
        if mm(n, INSERT) and len(a) > 1:
            q = self.place(a[0])
            if q is not None:
                c = self.piece(S, a[1])
                self.used(S, a[1])
                self.put(S, q, c)
            return
        if mm(n, STR):
            q = self.place(a[0])
            if q is None:
                return
            if m in ('basic_string', 'operator=', 'assign'):
                c = self.piece(S, a[1]) if len(a) > 1 and not mm(n, r'basic_string\(\)') else ()
                if len(a) > 1:
                    self.used(S, a[1])
                self.put(S, q, c, keep=False)
            elif m in ('append', 'operator+=', 'push_back'):
                c = self.piece(S, a[1])
                self.used(S, a[1])
                self.put(S, q, c)
            elif m == 'clear':
                self.put(S, q, (), keep=False)
            elif m == 'insert' and len(a) >= 3 and a[1].get('c') == 0:
                c = self.piece(S, a[2])
                self.used(S, a[2])
                self.put(S, q, c + dict(S.user[0]).get(q, ()), keep=False)
            elif m in ('resize', 'erase', 'pop_back', 'replace'):
                self.put(S, q, (('cut',),))

    def step(self, S, ev):
        if ev[0] == 'ins':
            self.ins(S, ev[1])
        if ev[0] == 'cond' and self.castv.get('cond'):
            return self.castv['cond'](self, S, ev)
        if ev[0] == 'exit' and ev[1] == RET and self.possible(S):
            c = dict(S.user[0]).get(('p', 0), ())
            if ('cut',) in c:
                raise AnchorError('%s: text is shortened' % self.fn.short())
            self.out.append((c, S.copy()))
        return True

    def head(self, S, b, news, pb):
        """the counters in terms of the values of the new round"""
        if self.aff.rounds is None:
            return
        for n, rx in self.elems.items():
            if any(cname(i) and mm(cname(i), rx) for q in self.aff.body_of(b) for i in self.fn.blocks[q] if i['op'] in ('call', 'invoke')):
                k, at = ('F', 'next', n), ('F', 'at', b, n)
                if pb in self.aff.body_of(b) and S.mem[k] == S.mem.get(at) and ('F', 'done', n) not in S.mem:
                    # a round without an element: nothing is due any more, or it was left out
                    S.mem[('F', 'done', n)] = num(1)
                    if self.aff.signs(S, S.mem[k].add(self.bound[n], -1)) <= {0, 1}:
                        S.mem[('F', 'past', b, n)] = S.mem[k]
                    S.mem[k] = self.bound[n] if self.aff.signs(S, S.mem[k].add(self.bound[n], -1)) <= {0, 1} else sym(('left out', n))
                if ('F', 'done', n) not in S.mem:
                    S.mem[k] = S.mem[k].add(self.aff.rounds)
                S.mem[at] = S.mem[k]
                past = ('F', 'past', b, n)
                if past in S.mem and pb in self.aff.body_of(b):
                    # later rounds are past the bound too
                    S.mem[past] = S.mem[past].add(num(1)).add(self.aff.rounds)
                    fk, flip = self.aff.factkey(S.mem[past].add(self.bound[n], -1))
                    if fk is not None:
                        S.facts[fk] = frozenset((0, -1) if flip else (0, 1))

    def run(self):
        self.aff = Aff(self.fn, self.step, (frozenset(), frozenset()), {('F', 'next', n): Lin() for n in self.vecs}, self.region, load=self.load, call=self.call, unwind=False, head=self.head)
        self.aff.run()
        return self.out
