"""What text objects hold: a forward dataflow over strings, streams and the objects
of a testing framework.

The content of an object is the sequence of pieces put into it. Pieces: ('lit', s),
('num', n), ('via', function, constants) for a call that is not modelled, and
whatever `source` says about a value. Objects are places (base, byte offset); a call
that is not modelled puts the content of all its arguments into the object it is
called on, so wrappers of any framework are followed without knowing them.
"""
from common import *
from fk import *  # noqa

STR = r'^(?:[\w:<>\*&, \[\]]* )?std::(?:__cxx11::)?basic_string<'
STREAM = r'^(?:[\w:<>\*&, \[\]]* )?std::(?:__cxx11::)?basic_(?:o|io)?(?:string)?stream<|^(?:[\w:<>\*&, \[\]]* )?std::(?:__cxx11::)?basic_ostream<'
INSERT = r'(?:^|[ :])operator<< ?(<.*>)?\('
CHARS = ('c_str', 'data', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'front', 'at')
LIMIT = 60


class Text:
    def __init__(self, fn, source=None, made=None):
        """source(path) -> piece or None for a value read from memory; made(i) -> pieces given by the call in its result, or None"""
        self.fn = fn
        self.source = source or (lambda p: None)
        self.made = made or (lambda i: None)

    # ---- places
    def place(self, o, d=0):
        """(base, offset) of an address, or None"""
        fn = self.fn
        n = 0
        for _ in range(60):
            if 'p' in o:
                return (('p', o['p']), n)
            i = fn.val(o)
            if i is None:
                return None
            op = i['op']
            if op == 'alloca':
                return (('a', i['id']), n)
            if op == 'getelementptr' and i.get('off') is not None:
                n += i['off']
                o = i['args'][0]
                continue
            if op in ('bitcast', 'freeze', 'addrspacecast'):
                o = i['args'][0]
                continue
            if op in ('call', 'invoke'):
                c = cname(i)
                if mm(c, INSERT) or method_of(c) in ('operator=', 'append', 'operator+=', 'assign', 'flush', 'put', 'write'):
                    if i.get('sret') is None and i['args']:
                        o = i['args'][0]
                        continue
                return (('x', i['id']), n)
            return None
        return None

    def content(self, st, o):
        """pieces of an operand: value, characters or object"""
        fn = self.fn
        if 'c' in o:
            return (('num', o['c']),)
        if 'null' in o:
            return (('null',),)
        p = fn.path(o)
        if p[0] == 'global':
            if len(p) > 2 and p[2] is not None:
                return (('lit', p[2].rstrip('\0')),)
            return (('global', p[1]),)
        i = fn.val(o)
        if i is not None:
            op = i['op']
            if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr') and not narrows(i):
                return self.content(st, i['args'][0])
            if op == 'load':
                a = self.place(i['args'][0])
                if a is not None and a[0][0] in ('a', 'x'):
                    c = self.at(st, a)
                    if c is not None:
                        return c
                s = self.source(p)
                return (s,) if s is not None else (('value', p),)
            if op in ('call', 'invoke') and st.get(('v', i['id'])) is not None:
                return st[('v', i['id'])]
        a = self.place(o)
        if a is not None:
            c = self.at(st, a)
            if c is not None:
                return c
            if a[0][0] == 'p':
                return (('in', a[0][1], a[1]),)
        s = self.source(p)
        return (s,) if s is not None else (('value', p),)

    def at(self, st, a):
        if a in st:
            return st[a]
        z = st.get((a[0], 0))
        if z is not None and any(q[0] == 'via' for q in z):
            return z
        return None

    def whole(self, st, base):
        out = ()
        for k in sorted((k for k in st if k[0] == base), key=lambda k: k[1]):
            out += st[k]
        return out

    def put(self, st, a, c):
        st[a] = c[:LIMIT]

    # ---- one instruction; returns the new state
    def step(self, st, x):
        fn = self.fn
        i = fn.ins[x]
        op = i['op']
        if op == 'store':
            a = self.place(i['args'][1])
            if a is None or a[0][0] == 'p':
                return st
            st = dict(st)
            self.put(st, a, self.content(st, i['args'][0]))
            return st
        if op not in ('call', 'invoke'):
            return st
        n = cname(i)
        args = i.get('args', [])
        if mm(n, r'^llvm\.(lifetime|dbg|assume|memset)|^__cxa_|^__clang|^operator (new|delete)|allocator.*::~?(__new_)?allocator\('):
            return st
        if mm(n, r'^llvm\.mem(cpy|move)'):
            a, b = self.place(args[0]), self.place(args[1])
            if a is None or b is None:
                return st
            st = dict(st)
            for k in [k for k in st if k[0] == b[0]]:
                st[(a[0], a[1] + k[1] - b[1])] = st[k]
            return st
        m = method_of(n)
        st = dict(st)
        res = self.made(i)
        sret = i.get('sret') is not None
        if res is not None:
            t = self.place(args[0]) if sret else ('v', x)
            if t is not None:
                self.put(st, t, res) if sret else st.__setitem__(t, res)
            return st
        if '::~' in n:
            a = self.place(args[0])
            if a is not None:
                st.pop(a, None)
            return st
        if mm(n, STR) and not mm(n, r'std::operator[+<=!>]|std::operator<<|std::to_') and not sret:
            return self.string(st, i, n, m, args)
        if mm(n, r'std::operator\+<|std::operator\+ <') and sret:
            a = self.place(args[0])
            if a is not None:
                self.put(st, a, self.content(st, args[1]) + self.content(st, args[2]))
            return st
        if mm(n, INSERT) and not sret and args:
            a = self.place(args[0])
            if a is not None and len(args) > 1:
                q = fn.path(args[1])
                if q[0] == 'global' and mm(str(q[1]), r'^std::(basic_ostream|ios_base|endl|flush|dec|hex|boolalpha)|std::endl') and not (len(q) > 2 and q[2] is not None):
                    return st
                self.put(st, a, st.get(a, ()) + tuple(c for o in args[1:] for c in self.content(st, o)))
            return st
        if mm(n, STREAM) and not sret:
            a = self.place(args[0]) if args else None
            if a is None:
                return st
            if m in ('basic_ostringstream', 'basic_stringstream', 'basic_ostream'):
                self.put(st, a, tuple(c for o in args[1:] if o.get('c') is None for c in self.content(st, o)))
            elif m == 'str':
                self.put(st, a, self.content(st, args[1]))
            return st
        if mm(n, STREAM) and sret and m == 'str':
            a = self.place(args[0])
            b = self.place(args[1])
            if a is not None:
                self.put(st, a, st.get(b, (('value', fn.path(args[1])),)))
            return st
        if sret and mm(n, STR) and m == 'substr':
            a = self.place(args[0])
            if a is not None:
                c = self.content(st, args[1])
                self.put(st, a, (('part', c),) if not all_of(args) else c)
            return st
        # anything else: the object called on (or the result) takes what it is given
        consts = tuple(o['c'] for o in args if 'c' in o)
        short = n
        given_ = tuple(c for o in args[1 if sret or member(n) else 0:] for c in self.content(st, o))
        t = None
        if args and (sret or member(n)):
            t = self.place(args[0])
        if t is not None and t[0][0] != 'p':
            old = () if sret or m in ctor(n) else st.get(t, ())
            self.put(st, t, old + (('via', short, consts),) + given_)
        if not sret:
            st[('v', x)] = ((('via', short, consts),) + (self.content(st, args[0]) if member(n) and args else ()) + given_)[:LIMIT]
        return st

    def string(self, st, i, n, m, args):
        fn = self.fn
        a = self.place(args[0]) if args else None
        if m in CHARS:
            st[('v', i['id'])] = self.content(st, args[0])
            return st
        if a is None:
            return st
        if m in ('basic_string', 'operator=', 'assign'):
            ps = [o for o in args[1:]]
            c = ()
            if ps:
                c = self.content(st, ps[0])
                if mm(n, r'unsigned long') and len(ps) >= 2 and not mm(n, r'initializer_list') and not whole_range(fn, ps):
                    c = (('part', c),) if c else c
            self.put(st, a, c)
            return st
        if m in ('append', 'operator+=', 'push_back'):
            self.put(st, a, st.get(a, ()) + self.content(st, args[1]))
            return st
        if m in ('clear',):
            self.put(st, a, ())
            return st
        if m in ('size', 'length', 'empty', 'capacity', 'reserve', 'find', 'rfind', 'compare', 'operator==', 'shrink_to_fit', 'max_size', 'get_allocator'):
            return st
        if m == 'insert' and len(args) >= 3 and args[1].get('c') == 0:
            self.put(st, a, self.content(st, args[2]) + st.get(a, ()))
            return st
        if m == 'swap':
            b = self.place(args[1])
            if b is not None:
                st[a], st[b] = st.get(b, ()), st.get(a, ())
            return st
        self.put(st, a, (('part', st.get(a, ())),))
        return st


def whole_range(fn, ps):
    return False


def all_of(args):
    return len(args) >= 3 and args[2].get('c') == 0 and (len(args) < 4 or args[3].get('c') in (-1, 2 ** 64 - 1))


def member(n):
    """does the function take an object as its first argument? (constructors and methods; free functions of a namespace do not)"""
    h = strip_ret(n)
    k = h.find('(')
    d = 0
    parts, cur = [], ''
    for c in h:
        if c == '<':
            d += 1
        if c == '>':
            d -= 1
        if c == '(' and d == 0:
            break
        if d == 0:
            cur += c
    parts = cur.split('::')
    if len(parts) < 2:
        return False
    if mm(n, r'\) const$'):
        return True
    owner = re.sub(r'<.*', '', parts[-2]).strip('> ')
    name = parts[-1].strip('> ')
    return name == owner or (owner[:1].isupper() and not mm(owner, r'^(Assert|Catch|QTest|Logger|Framework)$')) or name.startswith('operator')


def ctor(n):
    h = strip_ret(n)
    m = re.search(r'(\w+)(?:<.*>)?::\1\(', h)
    return (m.group(1),) if m else ()


def freeze(st):
    return frozenset(st.items())


def thaw(f):
    return dict(f)


def flat(c):
    """pieces without the structure of parts"""
    for q in c:
        if q[0] == 'part':
            continue
        yield q
