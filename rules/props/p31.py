"""Every function that only looks (matchers, lists of calls, searches, reports) is
closed under the virtual and recursive calls it makes; each memory effect in the
closure must go to an object of its own: a local, something it allocated, its
result, or a container or stream the caller passed to be filled."""
from common import *
from props.p09 import flag_field, reports

TECHNIQUE = 'interprocedural write-effect analysis: the target of every store and mutating call in the read-only operations is traced to the object it belongs to'
NOTE = 'classes of the witness stand for all; predicates, comparisons and print operators of the user are taken to leave what they see alone; asking for the recorder of a method named for the first time is not a change'

LOOK = [
    'over matches ^fakeit::TypedMatcher<.*>::matches',
    'over matches ^fakeit::ActualInvocation<.*>::Matcher::matches',
    'over matches ^fakeit::Invocation::Matcher::matches',
    'over format ^fakeit::(IMatcher|Invocation|Invocation::Matcher|EventFormatter|DefaultEventFormatter)::format',
    'over history ^fakeit::ActualInvocationsSource::getActualInvocations',
    'over seq ^fakeit::Sequence::(getExpectedSequence|size|getInvolvedMocks)',
    'root eval ' + EVALUATE, 'root none ^fakeit::VerifyNoOther.*::VerifyExpectation\\(',
    'root mark ^fakeit::Invocation::isVerified',
    DISPATCH, 'over clear ^fakeit::ActualInvocationsContainer::clear',
]
HIDE = ['opaque ^std::sort', 'opaque getRecordedMethodBody', 'opaque ^fakeit::(FakeitContext|EventHandler)::handle', 'opaque ^(Big|Shown)::']
RECORDER = r'::getRecordedMethodBody\('
REPORT = r'^fakeit::(\w+::)*handle\('
LIB = r'^(?:[\w:<>\*&, \[\]]+ )?(std::|__gnu_cxx::)'
READ = {'size', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'empty', 'operator[]', 'at', 'front', 'back', 'data', 'get', 'operator->', 'operator*', 'find', 'count', 'c_str', 'base', 'operator bool', 'load', 'compare', 'length'}
MUTATING = {'sort', 'stable_sort', 'reverse', 'rotate', 'swap', 'iter_swap', 'remove', 'remove_if', 'unique', 'fill', 'fill_n', 'partition', 'stable_partition', 'swap_ranges', 'exchange', 'partial_sort', 'nth_element', 'shuffle', 'random_shuffle', 'replace', 'replace_if', 'generate', 'iota', 'push_heap', 'make_heap', 'sort_heap'}
CONTAINER = r'^std::(__cxx11::)?(unordered_set|unordered_map|set|map|vector|list|deque|basic_string|basic_o?stream|basic_ostringstream|basic_stringstream|function)\b|^std::ostream'


def params_of(name):
    """types of the parameters of a demangled function"""
    d, start, end = 0, None, None
    k = 0
    h = name
    while k < len(h):
        c = h[k]
        if c in '<(' and not h.startswith(('operator<', 'operator()', 'operator('), max(0, k - 8)):
            if c == '(' and d == 0:
                start = k
                break
            d += 1
        elif c in '>)' and h[k - 1] != '-':
            d -= 1
        k += 1
    if start is None:
        return []
    d = 0
    out, cur = [], ''
    for c in h[start + 1:]:
        if c in '<([':
            d += 1
        elif c in '>)]':
            if d == 0 and c == ')':
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Looks:
    """origins of addresses in one function"""

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}
        pt = params_of(fn.name)
        self.out = set()
        k0 = 1 if fn.params and fn.params[0]['nm'] == 'this' else 0
        if fn.params and fn.params[0].get('sret'):
            self.out.add(0)
            k0 = 2 if len(fn.params) > 1 and fn.params[1]['nm'] == 'this' else 1
        for k, q in enumerate(fn.params):
            if q.get('sret') or q.get('byval'):
                self.out.add(k)
        for k, t in enumerate(pt):
            t = re.sub(r'^(fakeit|std)::\w+ const', 'const', t)
            if t.endswith('&') and not t.endswith('const&') and not t.startswith('const ') and mm(t, CONTAINER):
                if k0 + k < len(fn.params):
                    self.out.add(k0 + k)
        self.closure = fn.label.endswith('/closure')

    def origin(self, o, seen=None):
        """set of (kind, detail): own | p k | seen (reached through memory of others) | global g | const"""
        fn = self.fn
        seen = seen or set()
        if not isinstance(o, dict):
            return {('const', '')}
        if 'p' in o:
            return {('own', '')} if o['p'] in self.out else {('p', o['p'])}
        if 'g' in o:
            return {('global', o.get('d', o['g']))}
        if 'ce' in o:
            r = set()
            for a in o.get('args', []):
                r |= self.origin(a, seen)
            return r - {('const', '')} or {('const', '')}
        i = fn.val(o)
        if i is None:
            return {('const', '')}
        x = i['id']
        if x in seen:
            return set()
        seen = seen | {x}
        op = i['op']
        if op == 'alloca':
            return {('own', '')}
        if op in ('getelementptr', 'bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint', 'extractvalue'):
            return self.origin(i['args'][0], seen)
        if op == 'insertvalue':
            return self.origin(i['args'][0], seen) | self.origin(i['args'][1], seen)
        if op == 'phi':
            r = set()
            for c in i['inc']:
                r |= self.origin(c['v'], seen)
            return r
        if op == 'select':
            return self.origin(i['args'][1], seen) | self.origin(i['args'][2], seen)
        if op in ('add', 'sub'):
            return self.origin(i['args'][0], seen) | self.origin(i['args'][1], seen)
        if op == 'load':
            return self.content(i['args'][0], seen, i)
        if op == 'landingpad':
            return {('own', 'exception')}
        if op in ('call', 'invoke'):
            n = cname(i)
            if mm(n, r'^operator new|^__cxa_(allocate_exception|begin_catch)'):
                return {('own', '')}
            a = i['args']
            if n == '__dynamic_cast' or (mm(n, LIB) and a and i.get('sret') is None):
                return self.through(n, a, seen)
            return {('seen', 'what %s gives' % brief(n))}
        return {('const', '')}

    def through(self, n, a, seen):
        """library call giving a pointer: into the object it was called on, or what that object points at"""
        r = self.origin(a[0], seen)
        m = method_of(n)
        if mm(n, r'std::(__)?(shared_ptr|unique_ptr)') and m in ('get', 'operator->', 'operator*'):
            return self.pointee(r)
        return r

    def pointee(self, r):
        return {('seen', 'what is referred to') if k in ('own', 'p', 'seen') else (k, d) for k, d in r}

    def container(self, o):
        """is the address inside a local library object that owns its memory?"""
        i = self.fn.val(o)
        for _ in range(30):
            if i is None:
                if 'p' in o and o['p'] in self.out:
                    return True
                return False
            if i['op'] == 'alloca':
                return mm(i.get('aty', ''), r'std::(__cxx11::)?(vector|unordered_set|set|unordered_map|map|list|deque|basic_string|basic_o?stringstream|_Vector_base|_Hashtable|_Rb_tree)\b')
            if i['op'] in ('getelementptr', 'bitcast'):
                o = i['args'][0]
                i = self.fn.val(o)
                continue
            return False
        return False

    def content(self, a, seen, i):
        """what a pointer loaded from address a can point at"""
        fn = self.fn
        if self.container(a):
            return {('own', '')}
        if self.closure and 'i' in a or self.closure and 'p' in a:
            p = fn.path(a)
            if base_of(p)[0] == 'arg' and base_of(p)[1] == 0 and p[0] in ('.', 'arg', 'adj'):
                return {('captured', p[2] if p[0] == '.' else '')}
        la = self.base_alloca(a)
        if la is not None:
            r = set()
            for x in fn.order:
                j = fn.ins[x]
                if j['op'] == 'store' and self.base_alloca(j['args'][1]) == la:
                    r |= self.origin(j['args'][0], seen)
                elif j['op'] in ('call', 'invoke') and j.get('args') and self.base_alloca(j['args'][0]) == la:
                    n = cname(j)
                    if mm(n, r'^llvm\.mem(cpy|move)'):
                        r |= self.pointee(self.origin(j['args'][1], seen))
                    elif mm(n, r'::~|^llvm\.') or mm(n, r'\) const$'):
                        continue
                    else:
                        for q in j['args'][1:]:
                            r |= self.pointee(self.origin(q, seen)) | (self.origin(q, seen) if 'i' in q and self.base_alloca(q) is None else set())
            return r - {('const', '')} or {('seen', 'a local variable')}
        o = self.origin(a, seen)
        if o == {('own', '')}:
            # memory of a local container: what the elements point at is not ours; memory allocated here is
            return {('seen', 'an element')}
        return self.pointee(o)

    def base_alloca(self, o):
        i = self.fn.val(o)
        for _ in range(30):
            if i is None:
                return None
            if i['op'] == 'alloca':
                return i['id']
            if i['op'] in ('getelementptr', 'bitcast'):
                i = self.fn.val(i['args'][0])
                continue
            return None
        return None


def brief(n):
    return re.sub(r'\(.*', '', re.sub(r'<[^<>]*(<[^<>]*(<.*>)?[^<>]*>)?[^<>]*>', '', n))


def effects(fn, lk):
    """[(instruction, target operand, what)] of everything in fn that changes memory"""
    for x in fn.order:
        i = fn.ins[x]
        op = i['op']
        if op == 'store':
            yield x, i['args'][1], 'writes'
        elif op in ('atomicrmw', 'cmpxchg'):
            yield x, i['args'][0], 'updates'
        elif op in ('call', 'invoke'):
            n = cname(i)
            a = i.get('args', [])
            if not a:
                continue
            if mm(n, r'^llvm\.mem(cpy|move|set)'):
                yield x, a[0], 'overwrites'
                continue
            if n.startswith('llvm.') or mm(n, r'^__cxa_|^__clang|^__gxx|^std::terminate'):
                continue
            if mm(n, r'^operator delete'):
                yield x, a[0], 'releases'
                continue
            if i.get('virt'):
                if '::~' in n:
                    yield x, a[0], 'destroys'
                continue
            k0 = 1 if i.get('sret') is not None else 0
            pt = params_of(n)
            if mm(n, LIB):
                m = method_of(n)
                body = strip_ret(n)
                memb = is_member(body)
                if memb:
                    if '::~' in n:
                        yield x, a[0], 'destroys'
                    elif not mm(n, r'\) const( ?&)?$') and m not in READ and k0 < len(a):
                        if not mm(body, r'^std::function<.*>::operator\(\)'):
                            yield x, a[k0], 'changes (%s)' % m
                    rest = a[k0 + 1:]
                else:
                    rest = a[k0:]
                    if m in MUTATING:
                        for q in rest:
                            yield x, q, 'changes (%s)' % m
                for t, q in zip(pt, rest):
                    if t.endswith('&&') and not t.endswith(('*&&', 'int&&', 'bool&&', 'char&&', 'long&&', 'double&&', 'float&&')) and moves(m, body):
                        yield x, q, 'moves from'
            elif mm(n, r'::~'):
                yield x, a[0], 'destroys'
            elif 'callee' in i and not mm(n, r'^fakeit::|[ (<]fakeit::\w+.*::'):
                for t, q in zip(pt, a[-len(pt):] if pt else []):
                    if t.endswith('&&'):
                        yield x, q, 'moves from'


def moves(m, body):
    return m not in ('forward', 'move', 'get', 'addressof', '__addressof', 'operator<<')


def is_member(n):
    """is the library function called on an object?"""
    d = 0
    cur = ''
    for k, c in enumerate(n):
        if c == '<' and not n.startswith('operator<', k - 8):
            d += 1
        elif c == '>' and n[k - 1] != '-' and d:
            d -= 1
        elif c == '(' and d == 0:
            break
        elif d == 0:
            cur += c
    parts = [p for p in cur.split('::') if p]
    parts = [p for p in parts if p not in ('std', '__cxx11', '__gnu_cxx', '__detail', '_V2', '__ops', 'chrono')]
    return len(parts) >= 2


def strip_ret(n):
    d = 0
    last = 0
    for k, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>' and n[k - 1] != '-':
            d -= 1
        elif c == '(' and d == 0:
            break
        elif c == ' ' and d == 0 and not n[:k].endswith('operator'):
            last = k + 1
    return n[last:]


def q(n):
    return re.sub(r'([\\.^$*+?{}\[\]()|])', r'\\\1', n)


def closed(ctx):
    """the unit in which every fakeit function called from a looking function is itself a root"""
    spec = LOOK + HIDE
    done = set()
    for _ in range(6):
        u = ctx.unit('query.cpp', spec)
        have = {f.name for f in u.fns}
        more = []
        for f in u.fns:
            if f.label in ('dispatch', 'clear'):
                continue
            for x in f.order:
                i = f.ins[x]
                if i['op'] not in ('call', 'invoke'):
                    continue
                n = cname(i)
                if '::~' in n or mm(n, RECORDER) or mm(n, REPORT) or mm(n, LIB):
                    continue
                if i.get('virt') and mm(n, r'^fakeit::'):
                    m = re.sub(r'\(.*', '', drop_args(n))
                    covered = any(l.startswith('over') and mm(n, l.split(' ', 2)[2]) for l in spec)
                    if not covered and m not in done:
                        done.add(m)
                        more.append('over also ^' + general(m) + '\\(')
                elif mm(n, r'^fakeit::|^[\w:<>\*&, \[\]]+ fakeit::') and n not in have and n not in done:
                    done.add(n)
                    more.append('root also ^' + q(n) + '$')
        if not more:
            return u
        spec = spec + more
    raise AnchorError('the looking functions call ever more functions')


def general(m):
    """pattern of a method name with any template arguments"""
    out, d = '', 0
    for k, c in enumerate(m):
        if c == '<':
            d += 1
            out += '<.*>' if d == 1 else ''
        elif c == '>' and m[k - 1] != '-':
            d -= 1
        elif d == 0:
            out += q(c)
    return out


def drop_args(n):
    d = 0
    for k, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>' and n[k - 1] != '-':
            d -= 1
        elif c == '(' and d == 0:
            return n[:k]
    return n


def check(ctx):
    ctx.rule('R1', 'matchers change nothing')
    ctx.rule('R2', 'printing and reports change nothing')
    ctx.rule('R3', 'listing calls and patterns changes nothing but the list being filled')
    ctx.rule('R4', 'evaluating a verification changes nothing but its own flags and, if it succeeds, the marks of matched calls')
    ctx.rule('R5', 'looking for the stub that answers a call changes no stub and not their order')
    u = closed(ctx)
    flag = flag_field(ctx, u)
    rule = {'matches': 'R1', 'format': 'R2', 'history': 'R3', 'seq': 'R3', 'eval': 'R4', 'none': 'R4', 'also': 'R3', 'dispatch': 'R5'}
    for f in u.fns:
        label = f.label.split('/')[0]
        if label in ('clear', 'mark'):
            continue
        ctx.anchor(label in rule, 'no rule for ' + f.label)
        hist = body_roles(ctx, u, f)[0] if f.label == 'dispatch' else None
        judge(ctx, rule[label], label, f, flag, hist)
        if label in ('eval', 'none'):
            either(ctx, f, flag)
    for r, n in (('R1', 40), ('R2', 35), ('R3', 40), ('R4', 2), ('R5', 5)):
        ctx.need(r, n)


def judge(ctx, rid, label, f, flag, hist):
    lk = Looks(f)
    bad = None
    for x, o, what in effects(f, lk):
        p = f.path(o)
        for k, d in sorted(lk.origin(o), key=repr):
            if k in ('own', 'const', 'captured'):
                continue
            if k == 'global' and fixed_static(f, lk, x):
                continue
            if label in ('eval', 'none'):
                if what == 'writes' and k == 'p' and f.params[d]['nm'] == 'this' and '*' not in kinds(p):
                    continue
                if label == 'eval' and what == 'writes' and p[0] == '.' and (p[3], p[2]) == flag and f.ins[x]['args'][0].get('c') == 1:
                    continue
            if label == 'dispatch' and (hist in fields(p) or k == 'global' or k == 'p' and f.params[d]['nm'] != 'this'):
                continue
            bad = '%s: %s %s' % (f.where(x), what, render(p))
            break
        if bad:
            break
    ctx.require(rid, f.short(), bad is None, bad)


def either(ctx, f, flag):
    """no path both marks a call and reports a failure"""
    marks = set(x for x, i in f.ins.items() if i['op'] == 'store' and f.arg(x, 1)[0] == '.' and (f.arg(x, 1)[3], f.arg(x, 1)[2]) == flag)

    def step(st, ev):
        if ev[0] == 'ins':
            if ev[1] in marks:
                if st == 'reported':
                    raise Violation('a failed verification marks calls (%s)' % f.where(ev[1]))
                return 'marked'
            if reports(f.ins[ev[1]]):
                if st == 'marked':
                    raise Violation('a failing verification has already marked calls (%s)' % f.where(ev[1]))
                return 'reported'
        return st
    ctx.sim('R4', f, step, 'idle', instance='failures of ' + f.short())


def fixed_static(f, lk, x):
    """the one-time initialisation of a static from constants"""
    g = f.calls(r'^__cxa_guard_acquire$')
    if not g or not f.must_pass_before(x, g):
        return False
    i = f.ins[x]
    rest = i['args'][:1] if i['op'] == 'store' else i['args'][1:]
    return all(k in ('const', 'own', 'global') for o in rest for k, _ in lk.origin(o)) and (i['op'] == 'store' or mm(cname(i), r'(\w+)(\[abi:\w+\])?(<.*>)?::\1(<.*>)?\('))


def fields(p):
    out = set()

    def go(t):
        if isinstance(t, (tuple, frozenset)):
            if isinstance(t, tuple) and t and t[0] == '.':
                out.add(t[2])
            for y in t:
                go(y)
    go(p)
    return out


def kinds(p):
    out = set()

    def go(t):
        if isinstance(t, tuple):
            out.add(t[0])
            for y in t[1:]:
                go(y)
    go(p)
    return out
