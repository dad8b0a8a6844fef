"""What a stubbing call hands over: the action object, how often it runs, and the callable in it."""
from common import *
from sccp import *


def vtable_of(o):
    if isinstance(o, dict):
        if 'd' in o and o['d'].startswith('vtable for '):
            return o['d'][len('vtable for '):]
        for a in o.get('args', []):
            r = vtable_of(a)
            if r:
                return r
    return None


def objects(fn):
    """{path of a heap object: (class, {field: (how, operand)})}; the class is that of the last vtable stored"""
    out = {}
    for x in fn.order:
        i = fn.ins[x]
        if i['op'] in ('call', 'invoke') and mm(cname(i), r'^operator new'):
            out[fn.path({'i': x})] = [None, {}]
    for y in fn.order:
        j = fn.ins[y]
        if j['op'] == 'store':
            t = fn.arg(y, 1)
            if t in out and vtable_of(j['args'][0]):
                out[t][0] = vtable_of(j['args'][0])
            elif t[0] == '.' and t[1] in out:
                out[t[1]][1][t[2]] = ('store', j['args'][0], y)
        elif j['op'] in ('call', 'invoke') and j['args']:
            t = fn.arg(y, 0)
            if t[0] == '.' and t[1] in out and not mm(cname(j), r'::~'):
                how = 'copy' if is_copy_ctor(cname(j)) or mm(cname(j), r'memcpy') else 'call'
                out[t[1]][1][t[2]] = (how, j['args'][1] if len(j['args']) > 1 else None, y)
    return {k: (v[0], v[1]) for k, v in out.items() if v[0]}


FUNCTION = r'^(void )?std::function<.*>::function'


def callable_of(fn, o, seen=0):
    """('closure', class name, operand of the closure object) or ('given', path) or None:
    where the callable in the std::function at address o comes from"""
    if seen > 20:
        return None
    p = fn.path(o)
    if p[0] == '*' :
        p2 = p
    if p[0] == 'arg' or (p[0] == '*' and base_of(p)[0] == 'arg'):
        return ('given', p)
    for y in fn.order:
        j = fn.ins[y]
        if j['op'] not in ('call', 'invoke') or not j['args'] or fn.arg(y, 0) != p:
            continue
        n = cname(j)
        if j.get('sret') is not None and not mm(n, FUNCTION):
            return ('call', y, n)
        if not mm(n, FUNCTION):
            continue
        if is_copy_ctor(n):
            return callable_of(fn, j['args'][1], seen + 1)
        if len(j['args']) == 2:
            c = closure_class(n)
            if c.startswith('std::function<') and close(c, 14) == len(c) - 1:
                return callable_of(fn, j['args'][1], seen + 1)
            return ('closure', c, j['args'][1])
    return ('given', p) if base_of(p)[0] == 'arg' else None


def closure_class(n):
    """L for std::function<...>::function<L, ...>(L&&), taken from the template arguments"""
    m = re.match(r'^(?:void )?std::function<', n)
    if not m:
        return ''
    k = n.find('::function<', close(n, m.end()))
    if k < 0:
        return ''
    k += len('::function<')
    return re.sub(r'( const)?&*$', '', n[k:close(n, k, ',')].strip())


def close(n, k, also=''):
    """position of the bracket (or of a character of `also` on the outer level) that ends the list starting at k"""
    d = 0
    while k < len(n):
        c = n[k]
        if c in '<({[':
            d += 1
        elif c in '>)}]' and n[k - 1:k + 1] != '->':
            if d == 0:
                return k
            d -= 1
        elif d == 0 and c in also:
            return k
        k += 1
    return k


def origins(fn, o):
    """parameters the content of the object at address o was taken from"""
    out = set()
    p = fn.path(o)
    if base_of(p)[0] == 'arg':
        return {base_of(p)[1]}
    la = fn.local_addr(o)
    if la is None:
        return out
    for y in fn.order:
        j = fn.ins[y]
        if j['op'] == 'store':
            k = fn.local_addr(j['args'][1])
            if k and k[0] == la[0]:
                out |= set(l[1] for l in path_leaves(fn.arg(y, 0)) if l[0] == 'arg')
        elif j['op'] in ('call', 'invoke') and j['args']:
            k = fn.local_addr(j['args'][0])
            if k and k[0] == la[0] and not mm(cname(j), '::~'):
                for a in j['args'][1:]:
                    if fn.local_addr(a) and fn.local_addr(a)[0] != la[0]:
                        out |= origins(fn, a)
                    else:
                        out |= set(l[1] for l in path_leaves(fn.path(a)) if l[0] == 'arg')
    return out


def sign_atom(is_value, sign):
    """atom hook: loads of the quantity are 'zero' or 'pos'; comparisons with small constants follow"""
    def atom(i, val):
        if i['op'] in ('load', 'call', 'invoke') and is_value(i):
            return ('c', 0) if sign == 'zero' else ('pos',)
        if i['op'] in ('sext', 'zext') and val(i['args'][0]) == ('pos',):
            return ('pos',)
        if i['op'] == 'icmp':
            a, b = (val(x) for x in i['args'])
            p = i['pred']
            if b == ('pos',) and isinstance(a, tuple) and a[0] == 'c':
                a, b = b, a
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if a == ('pos',) and isinstance(b, tuple) and b[0] == 'c':
                n = b[1]
                q = p[-2:]
                if n <= 0:
                    r = {'eq': 0, 'ne': 1, 'gt': 1, 'ge': 1, 'lt': 0, 'le': 0}[q]
                    return ('c', r)
                if n == 1 and q in ('ge', 'lt'):
                    return ('c', 1 if q == 'ge' else 0)
                return TOP
        return None
    return atom


# ---- what a callable keeps and gives back --------------------------------------
def body_of(u, label, cls):
    """the call operator of a closure class"""
    fs = [f for f in u.get(label + '/closure') if f.name.startswith(cls + '::operator()')]
    return fs[0] if fs else None


def is_ptr(fn, o):
    if 'p' in o:
        return fn.params[o['p']]['ty'] == 'ptr'
    i = fn.val(o)
    return i is not None and (i.get('ty') == 'ptr' or i['op'] in ('alloca', 'getelementptr'))


def content(fn, o, sub=(), seen=0):
    """what the object at address o (a local, at sub path) holds: ('value'|'address'|'owned', parameter) or None"""
    la = fn.local_addr(o)
    if la is None or seen > 10:
        p = fn.path(o)
        b = base_of(p)
        return ('value', b[1]) if b[0] == 'arg' else None
    want = la[1] + tuple(sub)
    out = set()
    for y in fn.order:
        j = fn.ins[y]
        if j['op'] == 'store':
            k = fn.local_addr(j['args'][1])
            if k and k[0] == la[0] and k[1] == want:
                p = fn.path(j['args'][0])
                b = base_of(p)
                if b[0] == 'arg':
                    out.add(('address' if is_ptr(fn, j['args'][0]) else 'value', b[1]))
                elif b[0] == 'local' and is_ptr(fn, j['args'][0]):
                    out.add(('address of a local', b[2]))
                else:
                    out.add(('other', render(p)))
        elif j['op'] in ('call', 'invoke') and j['args']:
            k = fn.local_addr(j['args'][0])
            n = cname(j)
            if not k or k[0] != la[0] or mm(n, r'::~|::operator(?!=)') or mm(n, FUNCTION + '<') or mm(n, r'^llvm\.memset'):
                continue
            if k[1] == want[:len(k[1])]:
                rest = want[len(k[1]):]
                if is_copy_ctor(n) or mm(n, r'^llvm\.memcpy'):
                    out.add(content(fn, j['args'][1], rest, seen + 1))
                elif mm(n, r'std::make_shared<|std::make_unique<'):
                    out.add(('owned', min([b[1] for b in (base_of(fn.path(a)) for a in j['args'][1:]) if b[0] == 'arg'] or [-1])))
                elif j.get('sret') is None and k[1] == want and len(j['args']) > 1:
                    out.add(content(fn, j['args'][1], (), seen + 1))
    out.discard(None)
    return out.pop() if len(out) == 1 else None


def piece(fn, p):
    """sub path of the closure object the address p lies in, or None"""
    sub = []
    while isinstance(p, tuple) and p[0] == '.':
        sub.append(p[2])
        p = p[1]
    return tuple(reversed(sub)) if isinstance(p, tuple) and p[0] == 'arg' and p[2] == 'this' else None


def gives(fn):
    """[(how, sub path of the closure object, type thrown)] of everything a closure body gives back"""
    out = []
    for x in fn.order:
        i = fn.ins[x]
        if i['op'] == 'ret' and i['args']:
            p = fn.arg(x, 0)
            if p[0] == '*' and p[1][0] == '*':
                out.append(('value of what is pointed to', piece(fn, p[1][1]), None, x))
            elif p[0] == '*':
                out.append(('value', piece(fn, p[1]), None, x))
            else:
                out.append(('?', None, None, x))
        elif i['op'] in ('call', 'invoke'):
            n = cname(i)
            if n == '__cxa_throw':
                out.append(thrown(fn, i, x))
            elif i['args'] and 'p' in i['args'][0] and fn.params[i['args'][0]['p']].get('sret') and len(i['args']) > 1:
                p = fn.arg(x, 1)
                how = 'move' if n.endswith('&&)') else 'copy' if is_copy_ctor(n) or mm(n, r'memcpy') else '?'
                if p[0] == '*':
                    out.append((how + ' of what is pointed to', piece(fn, p[1]), None, x))
                else:
                    out.append((how, piece(fn, p), None, x))
    return out


def thrown(fn, t, x):
    obj = fn.arg(x, 0)
    typ = throw_type(t)
    for y in fn.order:
        j = fn.ins[y]
        if j['op'] == 'store' and fn.arg(y, 1) == obj:
            p = fn.arg(y, 0)
            if p[0] == '*' and p[1][0] == '*':
                return ('value of what is pointed to', piece(fn, p[1][1]), typ, x)
            return ('value' if p[0] == '*' else '?', piece(fn, p[1]) if p[0] == '*' else None, typ, x)
        if j['op'] in ('call', 'invoke') and len(j['args']) > 1 and fn.arg(y, 0) == obj and y != x:
            how = 'copy' if is_copy_ctor(cname(j)) and not cname(j).endswith('&&)') else 'move' if cname(j).endswith('&&)') else '?'
            p = fn.arg(y, 1)
            if p[0] == '*':
                return (how + ' of what is pointed to', piece(fn, p[1]), typ, x)
            return (how, piece(fn, p), typ, x)
    return ('?', None, typ, x)
