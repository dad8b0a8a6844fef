"""Roles and event classifiers shared by the properties."""
import re
from fk import *  # noqa

DISPATCH = 'over dispatch ^fakeit::MethodInvocationHandler<.*>::handleMethodInvocation'
BEHAVIOUR = r'^fakeit::ActualInvocationHandler<.*>::handleMethodInvocation'
MATCHES = r'^fakeit::ActualInvocation<.*>::Matcher::matches\('
HANDLE = r'^fakeit::(FakeitContext|EventHandler|EventHandler::\w+)::handle\(|^fakeit::\w+::handle\((const )?(fakeit::)?\w*Event'
VEC_MUT = ('push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'pop_back', 'resize', 'assign', 'swap', 'operator=', 'reserve', 'shrink_to_fit', '_M_move_assign', '_M_assign_aux')
VEC_ADD = ('push_back', 'emplace_back', 'insert', 'emplace')


def callee_class(n):
    """'std::vector' for 'std::vector<...>::push_back(...)'"""
    m = re.match(r'^(?:[\w:<>&\*, ]*? )?(std::[\w:]+)<', n)
    return m.group(1) if m else ''


def method_of(n):
    """unqualified method name of a demangled library call"""
    depth = 0
    for k, c in enumerate(n):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0:
            h = n[:k]
            break
    else:
        h = n
    if h.endswith('>') and not h.endswith('operator>') and not h.endswith('->'):
        d = 0
        for k in range(len(h) - 1, -1, -1):
            if h[k] == '>':
                d += 1
            elif h[k] == '<':
                d -= 1
                if d == 0:
                    h = h[:k]
                    break
    return h.split('::')[-1]


def vec_op(i):
    """name of the std::vector member called by instruction i, or None"""
    if i['op'] not in ('call', 'invoke') or 'callee' not in i:
        return None
    n = i['callee']
    if not mm(n, r'^([\w:<>\*&, ]* )?std::vector<'):
        return None
    return method_of(n)


def mutations(fn):
    """[(id, op, container path)] of all vector mutators called in fn"""
    out = []
    for k in fn.order:
        op = vec_op(fn.ins[k])
        if op in VEC_MUT and op not in ('reserve', 'shrink_to_fit'):
            out.append((k, op, fn.arg(k, 0)))
    return out


def is_field(p, name=None, base=None):
    return isinstance(p, tuple) and p[0] == '.' and (name is None or p[2] == name) and (base is None or p[1] == base)


def this_field(p):
    """name of the field when p is the address of a field of the receiver, else None"""
    if isinstance(p, tuple) and p[0] == '.' and p[1][0] == 'arg' and p[1][2] == 'this':
        return p[2]
    return None


def base_of(p):
    """outermost object an access path starts from"""
    while isinstance(p, tuple) and p[0] in ('.', '*', 'adj', 'at', 'gep0'):
        p = p[1]
    return p


def fields_in(p):
    return set(l[2] for l in path_leaves(p) if l[0] == 'field')


def calls_in(p):
    return set(l for l in path_leaves(p) if l[0] == 'call')


def throw_type(i):
    """type thrown by a __cxa_throw instruction"""
    o = i['args'][1]
    return re.sub(r'^typeinfo for ', '', o.get('d', '?'))


def catch_type(fn, cond_id):
    """type T when the condition compares the selector with the type id of T"""
    i = fn.ins[cond_id]
    if i['op'] == 'icmp':
        for a in i['args']:
            v = fn.val(a)
            if v is not None and v.get('callee', '').startswith('llvm.eh.typeid.for'):
                return re.sub(r'^typeinfo for ', '', v['args'][0].get('d', '?'))
    return None


def cond_true(fn, cid, val):
    """truth of an equality/inequality regardless of the predicate written"""
    i = fn.ins[cid]
    if i['op'] == 'icmp' and i['pred'] == 'ne':
        return not val
    return val


def given(i, k):
    """index of the k-th operand as written (a result returned in memory takes the first)"""
    return k + 1 if i.get('sret') is not None else k


# ---- roles ----------------------------------------------------------------
def class_of(fn):
    """class part of a member function's demangled name"""
    n = fn.name
    depth = 0
    last = None
    cut = len(n)
    for k, c in enumerate(n):
        if c == '<':
            depth += 1
        elif c == '>' and n[k - 1] != '-':
            depth -= 1
        elif depth == 0 and n.startswith('::', k):
            last = k
        elif depth == 0 and c == '(':
            cut = k
            break
    head = n[:last] if last is not None else n[:cut]
    # drop a leading return type
    d = 0
    start = 0
    for k, c in enumerate(head):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == ' ' and d == 0:
            start = k + 1
    return head[start:]


def read_fields(fn):
    """fields of the receiver whose address or content is used in fn"""
    out = set()
    for i in fn.ins.values():
        if i['op'] == 'getelementptr' and 'field' in i:
            p = fn.path({'i': i['id']})
            f = this_field(p)
            if f:
                out.add(f)
    return out


BODY_SPEC = [DISPATCH, 'over history ^fakeit::ActualInvocationsSource::getActualInvocations', 'over clear ^fakeit::ActualInvocationsContainer::clear']


def body_roles(ctx, u, fn):
    """(history field, class) of the recorded body a dispatcher belongs to"""
    cls = class_of(fn)
    h = [g for g in u.get('history') if class_of(g) == cls]
    ctx.anchor(len(h) == 1, 'history accessor of %s not found' % cls)
    fs = set(f for f in read_fields(h[0]) if is_vec_field(u, cls, f))
    ctx.anchor(len(fs) == 1, 'history container of %s not found (%s)' % (cls, sorted(fs)))
    return fs.pop(), cls


def field_type(u, cls, f):
    base = re.sub(r'<.*$', '', cls)
    for k in ('class.', 'struct.'):
        for r in u.records.get(k + base, []):
            for x in r['fields']:
                if x['name'] == f:
                    return x['type']
    return ''


def is_vec_field(u, cls, f):
    return mm(field_type(u, cls, f), r'(std::|^)(vector|list|deque)<')


# ---- verification ------------------------------------------------------------
SEQEXP = 'struct.fakeit::SequenceVerificationExpectation'
EVALUATE = r'^fakeit::SequenceVerificationExpectation::VerifyExpectation\('


def object_fields(rec):
    """memory keys of the fields of the one tracked object of class `rec`"""
    def key(p):
        if isinstance(p, tuple) and p[0] == '.' and p[3] == rec:
            return ('F', p[2])
        return None
    return key


def analysis_count(fn):
    """is instruction/load id the number of matches produced by the analysis run in fn?"""
    objs = set()
    for k in fn.calls(r'^fakeit::MatchAnalysis::(?!MatchAnalysis\(|~)'):
        for o in fn.ins[k]['args']:
            la = fn.local_addr(o)
            if la:
                objs.add(la[0])
    return objs


# ---- element order ----------------------------------------------------------
def element_address(fn, o, owner, seen=None):
    """operand that is the address of the container element from which pointer o was obtained"""
    if seen is None:
        seen = set()
    for _ in range(60):
        if position(fn, o, owner) is not None:
            return o
        i = fn.val(o)
        if i is None or i['id'] in seen:
            return None
        seen.add(i['id'])
        op = i['op']
        if op == 'load':
            k = fn.local_addr(i['args'][0])
            if k:
                inits = fn._local_inits().get((k[0], ()), [])
                if len(inits) == 1 and inits[0][0] in ('copy', 'own', 'store'):
                    j = inits[0][1]
                    o = j['args'][0] if inits[0][0] == 'store' else j['args'][1]
                    continue
                return None
            o = i['args'][0]
        elif op == 'getelementptr':
            o = i['args'][0]
        elif op in ('call', 'invoke') and cname(i) == '__dynamic_cast':
            o = i['args'][0]
        elif op in ('select', 'phi'):
            alts = i['args'][1:] if op == 'select' else [x['v'] for x in i['inc']]
            r = [x for x in (element_address(fn, a, owner, seen) for a in alts if 'i' in a) if x is not None]
            return r[0] if r else None
        else:
            return None
    return None


def vec_syms(owner):
    """(begin, end) symbols of a vector at access path `owner`"""
    rec = 'struct.std::_Vector_base'
    return owner


def is_begin(p, owner):
    return p == ('*', owner) or (p[0] == '*' and p[1][0] == '.' and p[1][1] == owner and p[1][2] == '_M_start')


def is_end(p, owner):
    return p[0] == '*' and isinstance(p[1], tuple) and p[1][0] == '.' and p[1][1] == owner and p[1][2] == '_M_finish'


def norm(fn, l, owner):
    """rewrite a linear form over the symbols B (begin), E (end) and loop phis"""
    r = Lin()
    for s, c in l.items():
        if s is None or (isinstance(s, tuple) and s[0] == 'phi' and len(s) == 2):
            k = s
        elif isinstance(s, tuple) and is_begin(s, owner):
            k = 'B'
        elif isinstance(s, tuple) and is_end(s, owner):
            k = 'E'
        else:
            k = s
        r[k] = r.get(k, 0) + c
        if r[k] == 0:
            del r[k]
    return r


def recurrence(fn, phi_id, owner):
    """(init, step) of a loop phi as linear forms, or None"""
    i = fn.ins[phi_id]
    inits, steps = [], []
    for inc in i['inc']:
        l = norm(fn, lin(fn, inc['v']), owner)
        if ('phi', phi_id) in l and l[('phi', phi_id)] == 1:
            s = Lin(l)
            del s[('phi', phi_id)]
            if any(k is not None for k in s):
                return None
            steps.append(s.get(None, 0))
        else:
            inits.append(l)
    if len(set(tuple(sorted(x.items(), key=repr)) for x in inits)) != 1 or len(set(steps)) != 1:
        return None
    return inits[0], steps[0]


def position(fn, o, owner):
    """(first address, byte step, phi, linear form) when o walks the elements of the vector at `owner`"""
    l = norm(fn, lin(fn, o), owner)
    phis = [s for s in l if isinstance(s, tuple) and s[0] == 'phi' and len(s) == 2]
    rest = [s for s in l if s not in phis and s is not None]
    if not phis:
        if rest and all(r in ('B', 'E') for r in rest) and sum(l[r] for r in rest) == 1:
            return (l, 0, None, l)
        return None
    if len(phis) != 1:
        return None
    rec = recurrence(fn, phis[0][1], owner)
    if rec is None:
        return None
    init, step = rec
    c = l[phis[0]]
    first = Lin({k: v for k, v in l.items() if k != phis[0]}).add(init, c)
    if any(k not in ('B', 'E', None) for k in first) or first.get('B', 0) + first.get('E', 0) != 1:
        return None
    return (first, step * c, phis[0][1], l)


def walk_order(fn, o, owner, size):
    """'forward' / 'backward' / description when o enumerates all elements of the vector in order"""
    pos = position(fn, o, owner)
    if pos is None:
        return None
    first, step, phi, l = pos
    if phi is None:
        return 'single:%s' % dict(first)
    if step == size and first == Lin({'B': 1}):
        return 'forward'
    if step == -size and first == Lin({'E': 1, None: -size}):
        return 'backward'
    return 'first=%s step=%s' % ({k: str(v) for k, v in first.items()}, step)


def loop_blocks(fn, phi_id):
    """blocks of the natural loop whose header holds the phi"""
    return loop_blocks_of(fn, fn.block_of[phi_id])


def loop_blocks_of(fn, h):
    preds, succ = defaultdict(set), {}
    for b, lst in fn.blocks.items():
        t = lst[-1]
        succ[b] = t.get('succ', []) + [t[k] for k in ('normal', 'unwind') if k in t]
        for s in succ[b]:
            preds[s].add(b)
    # blocks that can be reached without passing the header are not dominated by it
    e = fn.block_of[fn.entry]
    free, work = set(), [e] if e != h else []
    while work:
        b = work.pop()
        if b in free:
            continue
        free.add(b)
        work += [s for s in succ[b] if s != h]
    body = {h}
    work = [p for p in preds[h] if p not in free]
    while work:
        b = work.pop()
        if b in body:
            continue
        body.add(b)
        work += [p for p in preds[b]]
    return body


def exhausts(fn, o, owner, size, cond_id, val):
    """is `cond_id == val` exactly the condition 'no element left to visit' for the walk of o?"""
    pos = position(fn, o, owner)
    i = fn.ins[cond_id]
    if pos is None or i['op'] != 'icmp':
        return False
    first, step, phi, l = pos
    a, b = (norm(fn, lin(fn, x), owner) for x in i['args'])
    d = a.add(b, -1)
    # remaining bytes: backward: l + size - B ; forward: E - l
    rem = l.add(Lin({None: size}) if size else Lin()).add(Lin({'B': 1}), -1) if step < 0 else Lin({'E': 1}).add(l, -1)
    if not d or not rem:
        return False
    pred = i['pred']
    if not val:
        pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[pred]
    for shift in (0, size, -size, 1, -1):
        if pred in ('eq',) and shift:
            continue
        dd = d.add(Lin({None: shift})) if shift else d
        ks = set(dd) | set(rem)
        t = None
        ok = True
        for k in ks:
            x, y = dd.get(k, 0), rem.get(k, 0)
            if x == 0 or y == 0:
                ok = False
                break
            if t is None:
                t = x / y
            elif t != x / y:
                ok = False
                break
        if not ok or t is None:
            continue
        unit = size * abs(t)
        p = pred[1:] if pred[0] in 'us' else pred
        # d + shift == t*rem ; exit iff rem <= 0 (rem is a multiple of size)
        if p == 'eq' and shift == 0:
            return True
        if t > 0:
            if p == 'le' and shift == 0:
                return True
            if p == 'lt' and shift == unit:      # d + unit = t*rem, d < 0  <=> t*rem < unit
                return True
        else:
            if p == 'ge' and shift == 0:
                return True
            if p == 'gt' and shift == -unit:
                return True
    return False


def rooted(p, k):
    """the access path starts at parameter k"""
    while isinstance(p, tuple) and p and p[0] != 'arg':
        p = p[1]
    return isinstance(p, tuple) and p[0] == 'arg' and p[1] == k


def type_at(u, p):
    """declared type of the field a path names; '' if not known"""
    if p[0] != '.':
        return ''
    for r in u.records.get(p[3], []):
        for x in r['fields']:
            if x['name'] == p[2]:
                return x['type']
    return ''


def numbers(u):
    """names of the fields of a call that hold numbers: its sequence number"""
    out = set()
    for k in ('struct.', 'class.'):
        for r in u.records.get(k + 'fakeit::Invocation', []):
            out |= set(x['name'] for x in r['fields'] if mm(x['type'], r'^(const )?(unsigned |signed )?(char|short|int|long|long long)$|^unsigned$'))
    return out or {'_ordinal'}


def unmarking(u):
    """names of the fields of a call that are its number or refer to something: not its mark"""
    out = set()
    for k in ('struct.', 'class.'):
        for r in u.records.get(k + 'fakeit::Invocation', []):
            out |= set(x['name'] for x in r['fields'] if mm(x['type'], r'[&*]$'))
    return numbers(u) | (out or {'_method'})
