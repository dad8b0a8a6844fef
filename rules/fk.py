"""Graph model of lowered functions and the analyses the rules are written in."""
import json
import re
from collections import defaultdict
from functools import lru_cache

NOISE = re.compile(r'^llvm\.(lifetime|experimental\.noalias|dbg|invariant|assume|stackrestore|stacksave|donothing)')
EXC, RET = 'EXC', 'RET'

# Library calls whose only exception is running out of memory; those are not
# considered (see DESIGN, assumptions).
ALLOC_ONLY = re.compile(
    r'^(void |bool |std::)?.*(std::(vector|shared_ptr|__shared_ptr|__shared_count|unique_ptr|__cxx11::basic_string|basic_string|allocator|tuple|set|map|unordered_set|unordered_map|_Rb_tree|__cxx11::list|initializer_list|__atomic_base|atomic|pair|array|char_traits|exception)\b|operator new|operator delete|std::operator\+|std::make_shared|std::make_tuple|std::swap|std::to_string|__cxx_global|__cxa_(allocate|free|guard|begin_catch|end_catch|get_exception|atexit))')


class Violation(Exception):
    pass


class AnchorError(Exception):
    pass


def mm(s, regex):
    return re.search(regex, s) is not None


def plain(n):
    """name of a member template of a container without its result type and template arguments"""
    m = re.search(r'::emplace(_back|_front|_hint)?(?=<)', n)
    if not m:
        return n
    d, start, end = 0, 0, None
    for k, c in enumerate(n):
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
            if end is None and k > m.end() and d == 0:
                end = k
        elif c == ' ' and d == 0 and k < m.start():
            start = k + 1
    r = n[start:m.end()] + n[end + 1:] if end is not None else n
    return r if r.startswith('std::') else n


class Fn:
    def __init__(self, d, unit):
        self.d = d
        self.unit = unit
        self.label = d['label']
        self.name = d['name']
        self.sym = d['sym']
        self.params = d['params']
        self.ins = {}
        self.block_of = {}
        self.blocks = {}
        self.order = []
        for b in d['blocks']:
            lst = [i for i in b['ins'] if not (i.get('callee') and NOISE.match(i['callee']))]
            self.blocks[b['id']] = lst
            for i in lst:
                if 'callee' in i and '::emplace' in i['callee']:
                    i['callee'] = plain(i['callee'])
                self.ins[i['id']] = i
                self.block_of[i['id']] = b['id']
                self.order.append(i['id'])
        self.entry = self.first(0)
        self.next = {}
        for bid, lst in self.blocks.items():
            for k, i in enumerate(lst):
                if k + 1 < len(lst):
                    self.next[i['id']] = lst[k + 1]['id']
        self.users = defaultdict(list)
        for i in self.ins.values():
            for o in operands(i):
                for x in ids_in(o):
                    self.users[x].append(i['id'])
        self._path = {}

    def first(self, bid):
        return self.blocks[bid][0]['id']

    def __repr__(self):
        return '<Fn %s>' % self.name

    def where(self, iid=None):
        if iid is None:
            for i in self.order:
                if self.ins[i].get('loc'):
                    return self.short() + ' at ' + rel(self.ins[i]['loc'])
            return self.short()
        i = self.ins[iid]
        loc = i.get('loc', '')
        if not loc or loc.endswith(':0'):
            k = self.order.index(iid)
            for j in self.order[k:]:
                if self.ins[j].get('loc') and not self.ins[j]['loc'].endswith(':0'):
                    loc = self.ins[j]['loc']
                    break
        return rel(loc)

    def repo_where(self, iid):
        """the innermost frame of the instruction that is not library code"""
        return self.where(iid)

    def short(self):
        return re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>', 'std::string', self.name)

    def p(self, name):
        """the index of the parameter with that name"""
        for k, q in enumerate(self.params):
            if q['nm'] == name:
                return k
        return None

    # ---- control flow --------------------------------------------------
    def succs(self, iid):
        """[(kind, target)] with kind in seq/br0/br1/.../normal/unwind; targets are ins ids or EXC/RET"""
        i = self.ins[iid]
        op = i['op']
        if op == 'br':
            if 'cond' in i:
                return [('br%d' % k, self.first(b)) for k, b in enumerate(i['succ'])]
            return [('seq', self.first(i['succ'][0]))]
        if op == 'switch':
            return [('br%d' % k, self.first(b)) for k, b in enumerate(i['succ'])]
        if op == 'invoke':
            out = [('normal', self.first(i['normal']))]
            if may_throw(i):
                out.append(('unwind', self.first(i['unwind'])))
            if noreturn(i):
                out = [o for o in out if o[0] != 'normal']
            return out
        if op == 'ret':
            return [('seq', RET)]
        if op == 'resume':
            return [('seq', EXC)]
        if op == 'unreachable':
            return []
        out = []
        if iid in self.next and not (op == 'call' and noreturn(i)):
            out.append(('seq', self.next[iid]))
        if op == 'call' and may_throw(i):
            out.append(('unwind', EXC))
        return out

    def calls(self, *res):
        """ids of calls whose callee or virtual target matches one of the patterns"""
        out = []
        for k in self.order:
            i = self.ins[k]
            if i['op'] in ('call', 'invoke'):
                n = cname(i)
                if any(mm(n, r) for r in res):
                    out.append(k)
        return out

    def all_calls(self):
        return [k for k in self.order if self.ins[k]['op'] in ('call', 'invoke')]

    def reach(self, starts, avoid=(), unwind=True, back=False):
        avoid = set(avoid)
        seen = set()
        work = [s for s in starts]
        while work:
            n = work.pop()
            if n in seen or n in avoid:
                continue
            seen.add(n)
            if n in (EXC, RET):
                continue
            for kind, t in self.succs(n):
                if kind == 'unwind' and not unwind:
                    continue
                work.append(t)
        return seen

    def after(self, iid, unwind=False):
        return [t for k, t in self.succs(iid) if unwind or k != 'unwind']

    def must_pass_before(self, target, through, unwind=True):
        """every path from entry to target passes one of `through`"""
        return target not in self.reach([self.entry], avoid=[t for t in through if t != target], unwind=unwind)

    # ---- values --------------------------------------------------------
    def val(self, o):
        """instruction defining operand o, or None"""
        if isinstance(o, dict) and 'i' in o:
            return self.ins.get(o['i'])
        return None

    def path(self, o, depth=0):
        """access path of an operand, a nested tuple (see render)"""
        if isinstance(o, int):
            o = {'i': o}
        key = json.dumps(o, sort_keys=True)
        if key in self._path:
            return self._path[key]
        self._path[key] = ('rec', key)
        r = self._mkpath(o, depth)
        if depth == 0 or not has_rec(r):
            self._path[key] = r
        else:
            del self._path[key]
        return r

    def _mkpath(self, o, depth):
        if depth > 60:
            return ('deep',)
        d = depth + 1
        if 'c' in o:
            return ('const', o['c'])
        if 'null' in o:
            return ('const', 0)
        if 'zero' in o:
            return ('const', 0)
        if 'f' in o:
            return ('fconst', o['f'])
        if 'p' in o:
            nm = self.params[o['p']]['nm'] or 'arg%d' % o['p']
            return ('arg', o['p'], nm)
        if 'g' in o:
            return ('global', o['d'], o.get('str'))
        if 'ce' in o:
            if o['ce'] == 'getelementptr':
                return ('gep0', self.path(o['args'][0], d)) if True else None
            return ('ce', o['ce']) + tuple(self.path(a, d) for a in o['args'])
        if 'k' in o:
            return ('agg',) + tuple(self.path(a, d) for a in o['args'])
        if 'undef' in o:
            return ('undef',)
        if 'i' not in o:
            return ('?',)
        i = self.ins.get(o['i'])
        if i is None:
            return ('?',)
        op = i['op']
        if op == 'load':
            a = self.path(i['args'][0], d)
            return self.load_from(i, a, d)
        if op == 'getelementptr':
            b = self.path(i['args'][0], d)
            if 'field' in i:
                f = i['field']
                if f.startswith('<base'):
                    return b
                return ('.', b, f, i['rec'])
            if i.get('off') is not None and mm(i['sty'], r'^i8$'):
                return ('adj', b, i['off']) if i['off'] else b
            if i.get('off') == 0:
                return b
            return ('at', b, tuple(self.path(x, d) for x in i['args'][1:]), i.get('ssz'))
        if op in ('call', 'invoke'):
            n = cname(i)
            if n == '__dynamic_cast':
                return self.path(i['args'][0], d)
            return ('call', i['id'], n)
        if op == 'alloca':
            return ('local', i['id'], i.get('nm', ''))
        if op in ('phi',):
            vs = set()
            for inc in i['inc']:
                q = self.path(inc['v'], d)
                if q == ('rec', json.dumps(o, sort_keys=True)) or q == ('undef',):
                    continue
                vs.add(q)
            if len(vs) == 1:
                return vs.pop()
            return ('phi', i['id'], frozenset(vs))
        if op == 'select':
            a, b = self.path(i['args'][1], d), self.path(i['args'][2], d)
            if a == b or b == ('undef',):
                return a
            if a == ('undef',):
                return b
            return ('sel', self.path(i['args'][0], d), a, b)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return self.path(i['args'][0], d)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
            return (op, self.path(i['args'][0], d))
        if op in ('icmp', 'fcmp'):
            return ('cmp', i['pred'], self.path(i['args'][0], d), self.path(i['args'][1], d))
        if op == 'extractvalue':
            v = self.part(i['args'][0], i['idx'])
            if v is not None:
                return self.path(v, d)
            return ('ev', self.path(i['args'][0], d), tuple(i['idx']))
        if op == 'landingpad':
            return ('lpad', i['id'])
        return (op,) + tuple(self.path(a, d) for a in i.get('args', []))

    def part(self, o, idx):
        """operand inserted at one index of an aggregate, when known"""
        for _ in range(20):
            i = self.val(o)
            if i is None or i['op'] != 'insertvalue':
                break
            if i.get('idx') == idx:
                return i['args'][1]
            o = i['args'][0]
        if isinstance(o, dict) and 'k' in o and len(idx) == 1 and idx[0] < len(o['args']):
            return o['args'][idx[0]]
        return None

    def load_from(self, i, a, d):
        # a load of a local that is initialised once from a known place
        k = self.local_addr(i['args'][0])
        if k is not None:
            src = self.local_source(k[0], k[1], d)
            if src is not None:
                return src
        return ('*', a)

    def local_addr(self, o):
        """(alloca id, field names) of an address inside a local object"""
        sub = []
        for _ in range(20):
            i = self.val(o)
            if i is None:
                return None
            if i['op'] == 'alloca':
                return (i['id'], tuple(reversed(sub)))
            if i['op'] == 'getelementptr':
                if 'field' in i:
                    if not i['field'].startswith('<base'):
                        sub.append(i['field'])
                elif i.get('off'):
                    sub.append('+%d' % i['off'])
                elif i.get('off') is None:
                    return None
                o = i['args'][0]
                continue
            return None
        return None

    def _local_inits(self):
        if hasattr(self, '_li'):
            return self._li
        m = defaultdict(list)
        for x in self.order:
            i = self.ins[x]
            if i['op'] == 'store':
                k = self.local_addr(i['args'][1])
                if k:
                    m[k].append(('store', i))
            elif i['op'] in ('call', 'invoke') and i['args']:
                k = self.local_addr(i['args'][0])
                if not k:
                    continue
                n = cname(i)
                if mm(n, r'~|::operator|::(push_back|insert|emplace_back|size|begin|end|c_str|clear|erase)\b') or mm(n, r'^llvm.memset'):
                    continue
                if mm(n, r'shared_ptr<.*::(shared_ptr|__shared_ptr)(<.*>)?\(std::(__)?shared_ptr<') or mm(n, r'llvm\.memcpy') or is_copy_ctor(n):
                    m[k].append(('copy', i))
                elif mm(n, r'shared_ptr<.*::shared_ptr(<.*>)?\((?!std::)') and len(i['args']) == 2:
                    m[k].append(('own', i))
                elif 'virt' in i or (i.get('sret') is None and not mm(n, r'::(\w+)(<.*>)?::\1(<.*>)?\(')):
                    continue
                else:
                    m[k].append(('other', i))
        self._li = m
        return m

    def local_source(self, aid, sub, d):
        """content of a local object at the given sub path when it has one initialisation"""
        m = self._local_inits()
        if d > 40:
            return None
        for n in range(len(sub), -1, -1):
            inits = m.get((aid, sub[:n]), [])
            if not inits:
                continue
            if len(inits) != 1:
                return None
            k, i = inits[0]
            rest = sub[n:]
            if k == 'store' and not rest:
                return self.path(i['args'][0], d)
            if k == 'own' and not [r for r in rest if r != '_M_ptr']:
                return self.path(i['args'][1], d)
            if k == 'copy':
                src = self.local_addr(i['args'][1])
                if src is not None:
                    r = self.local_source(src[0], src[1] + rest, d + 1)
                    if r is not None:
                        return r
                p = self.path(i['args'][1], d)
                for s in rest:
                    if s != '_M_ptr':
                        p = ('.', p, s, '')
                return ('*', p)
            return None
        return None

    def arg(self, iid, k):
        return self.path(self.ins[iid]['args'][k])

    def leaves(self, o, seen=None):
        """leaf sources of a value: ('field',rec,f) loads, ('call',id,name), ('arg',k,..), ('const',n), ('global',..)"""
        return path_leaves(self.path(o))

    def render(self, p):
        return render(p)

    # ---- stores/effects --------------------------------------------------
    def stores(self):
        return [k for k in self.order if self.ins[k]['op'] in ('store', 'atomicrmw', 'cmpxchg')]


def has_rec(p):
    if isinstance(p, tuple):
        if p and p[0] == 'rec':
            return True
        return any(has_rec(x) for x in p)
    if isinstance(p, frozenset):
        return any(has_rec(x) for x in p)
    return False


def path_leaves(p, out=None):
    if out is None:
        out = set()
    if not isinstance(p, (tuple, frozenset)):
        return out
    if isinstance(p, frozenset):
        for x in p:
            path_leaves(x, out)
        return out
    h = p[0] if p else None
    if h in ('arg', 'const', 'fconst', 'global', 'local', 'call', 'undef', 'lpad', 'rec', '?', 'deep'):
        out.add(p)
        return out
    if h == '.':
        out.add(('field', p[3], p[2]))
        path_leaves(p[1], out)
        return out
    for x in p[1:]:
        path_leaves(x, out)
    return out


def render(p):
    if isinstance(p, frozenset):
        return '{' + ' | '.join(sorted(render(x) for x in p)) + '}'
    if not isinstance(p, tuple):
        return str(p)
    h = p[0] if p else ''
    if not isinstance(h, str):
        return ','.join(render(x) for x in p)
    if h == 'arg':
        return p[2]
    if h == 'const':
        return str(p[1])
    if h == '.':
        return render(p[1]) + '.' + p[2]
    if h == '*':
        return '[' + render(p[1]) + ']'
    if h == 'call':
        return 'call#%d:%s' % (p[1], p[2])
    if h == 'local':
        return 'local:' + p[2]
    if h == 'global':
        return '@' + (repr(p[2]) if p[2] else p[1])
    if h == 'adj':
        return render(p[1])
    if h == 'phi':
        return 'phi#%d%s' % (p[1], render(p[2]))
    return h + '(' + ', '.join(render(x) for x in p[1:]) + ')'


def rel(loc):
    return re.sub(r'^.*?/(include|config|single_header)/', r'\1/', loc) if '/repo' in loc or loc.startswith('/') else loc


def is_copy_ctor(n):
    """X::X(X const&) or X::X(X&&)"""
    m = re.match(r'^(.*)::(\w+)(<.*>)?\((.*?)( const&|&&|&)\)$', n)
    if not m:
        return False
    cls, ctor, t, par = m.group(1), m.group(2), m.group(3), m.group(4)
    base = re.sub(r'<.*$', '', cls).split('::')[-1]
    return ctor == base and cls == par


def cname(i):
    return i.get('virt') or i.get('callee') or ('<indirect>' if 'fp' in i else '')


def operands(i):
    out = list(i.get('args', []))
    out += [x['v'] for x in i.get('inc', [])]
    if 'cond' in i:
        out.append(i['cond'])
    if 'fp' in i:
        out.append(i['fp'])
    return out


def ids_in(o):
    if isinstance(o, dict):
        if 'i' in o:
            yield o['i']
        for a in o.get('args', []):
            yield from ids_in(a)


def noreturn(i):
    n = cname(i)
    return n in ('__cxa_throw', '__cxa_rethrow', '__cxa_bad_cast', '__cxa_bad_typeid', 'std::terminate()', '__clang_call_terminate', 'abort', 'exit') or n.startswith('std::__throw_') or n.startswith('std::rethrow_exception')


def may_throw(i):
    if i.get('nounwind'):
        return False
    n = cname(i)
    if 'virt' in i:
        return not mm(n, r'::~[A-Za-z_<>, :]*\(\)')
    if not n or n == '<indirect>':
        return True
    if n.startswith('llvm.'):
        return False
    if n in ('__dynamic_cast', '__cxa_bad_cast', 'strcmp', 'memcpy', 'memset', 'strlen'):
        return False
    if n in ('__cxa_throw', '__cxa_rethrow'):
        return True
    if mm(n, r'std::function<.*>::operator\(\)'):
        return True
    if mm(n, r'std::function<.*>::(function|~function|operator=|swap|operator bool)'):
        return False
    if 'bn' in i and ALLOC_ONLY.match(strip_ret(n)):
        return False
    if mm(n, r'::~\w+\(\)$'):
        return False
    return True


def strip_ret(n):
    return n


# ---------------------------------------------------------------- simulation
class Sim:
    """Runs a property automaton over every path of a function.

    Branch outcomes, null tests and small constants are tracked per path, so
    that correlated branches are not combined; everything else is left open.
    step(state, ev) -> new state | None (path not of interest); raise Violation.
    Events: ('ins', id) | ('cond', id, bool) | ('edge', id, kind) | ('exit', RET|EXC)
    """

    def __init__(self, fn, step, init, prune=None, max_states=400000, unwind=True):
        self.fn = fn
        self.step = step
        self.init = init
        self.max_states = max_states
        self.unwind = unwind
        self._keys = {}
        self.tracked = self._tracked()
        self.visited = 0
        self.transitions = 0

    def _tracked(self):
        fn = self.fn
        t = set()
        work = []
        for i in fn.ins.values():
            if 'cond' in i:
                work += list(ids_in(i['cond']))
        while work:
            x = work.pop()
            if x in t or x not in fn.ins:
                continue
            t.add(x)
            i = fn.ins[x]
            if i['op'] in ('phi', 'select', 'xor', 'and', 'or', 'icmp', 'zext', 'trunc', 'sext', 'freeze'):
                for o in operands(i):
                    work += list(ids_in(o))
        return t

    def ev(self, o, env, d=0):
        """abstract value of an operand: ('c',n) | 'N' (non-null) | None"""
        fn = self.fn
        if d > 40:
            return None
        if 'c' in o:
            return ('c', o['c'] & 1 if o.get('w') == 1 else o['c'])
        if 'null' in o or 'zero' in o:
            return ('c', 0)
        if 'g' in o:
            return 'N'
        if 'ce' in o:
            return 'N' if o['ce'] == 'getelementptr' else None
        if 'p' in o:
            return 'N' if fn.params[o['p']]['nm'] == 'this' else env.get(('p', o['p']))
        if 'i' not in o:
            return None
        x = o['i']
        if x in env:
            return env[x]
        i = fn.ins.get(x)
        if i is None:
            return None
        op = i['op']
        if op == 'alloca':
            return 'N'
        if op == 'getelementptr':
            if 'field' in i:
                return 'N'
            return None
        if op in ('call', 'invoke'):
            if mm(cname(i), r'^operator new'):
                return 'N'
            return None
        if op in ('zext', 'freeze'):
            return self.ev(i['args'][0], env, d + 1)
        if op in ('trunc', 'sext'):
            v = self.ev(i['args'][0], env, d + 1)
            if v and v != 'N' and v[1] in (0, 1):
                return v
            return None
        if op == 'xor':
            a, b = (self.ev(k, env, d + 1) for k in i['args'])
            if a and b and a != 'N' and b != 'N' and i.get('ty') == 'i1':
                return ('c', (a[1] ^ b[1]) & 1)
            return None
        if op in ('and', 'or') and i.get('ty') == 'i1':
            a, b = (self.ev(k, env, d + 1) for k in i['args'])
            dom = 0 if op == 'and' else 1
            if a == ('c', dom) or b == ('c', dom):
                return ('c', dom)
            if a and b:
                return ('c', 1 - dom)
            return None
        if op == 'select':
            c = self.ev(i['args'][0], env, d + 1)
            if c == ('c', 1):
                return self.ev(i['args'][1], env, d + 1)
            if c == ('c', 0):
                return self.ev(i['args'][2], env, d + 1)
            a, b = self.ev(i['args'][1], env, d + 1), self.ev(i['args'][2], env, d + 1)
            return a if a == b else None
        if op == 'icmp' and i['pred'] in ('eq', 'ne'):
            a, b = (self.ev(k, env, d + 1) for k in i['args'])
            r = None
            if a is not None and b is not None:
                if a != 'N' and b != 'N':
                    r = a[1] == b[1]
                elif (a == 'N' and b == ('c', 0)) or (b == 'N' and a == ('c', 0)):
                    r = False
            if r is None and i['args'][0] == i['args'][1]:
                r = True
            if r is None:
                k = self.congruent(x)
                if k is not None and k in env:
                    r = env[k] == ('c', 1)
            if r is None:
                return None
            if i['pred'] == 'ne':
                r = not r
            return ('c', int(r))
        if op == 'icmp':
            a, b = (self.ev(k, env, d + 1) for k in i['args'])
            if a and b and a != 'N' and b != 'N':
                x1, y1 = a[1], b[1]
                p = i['pred']
                if p[0] == 'u' and (x1 < 0 or y1 < 0):
                    return None
                r = {'lt': x1 < y1, 'le': x1 <= y1, 'gt': x1 > y1, 'ge': x1 >= y1}[p[1:]]
                return ('c', int(r))
        return None

    def assume(self, o, val, env, facts, d=0):
        """record that operand o (a truth value) equals val; False if contradictory"""
        fn = self.fn
        v = self.ev(o, env)
        if v is not None and v != 'N':
            if bool(v[1]) != val:
                return False
        if 'i' not in o or d > 30:
            return True
        x = o['i']
        i = fn.ins.get(x)
        if i is None:
            return True
        if x not in env:
            env[x] = ('c', int(val))
        facts.append((x, val))
        op = i['op']
        if op in ('zext', 'trunc', 'freeze'):
            return self.assume(i['args'][0], val, env, facts, d + 1)
        if op == 'xor' and i.get('ty') == 'i1':
            for k in (0, 1):
                c = self.ev(i['args'][k], env)
                if c and c != 'N' and 'c' in i['args'][k]:
                    return self.assume(i['args'][1 - k], val ^ bool(c[1] & 1), env, facts, d + 1)
        if op in ('and', 'or') and i.get('ty') == 'i1':
            if val == (op == 'and'):
                return all(self.assume(a, val, env, facts, d + 1) for a in i['args'])
            vs = [self.ev(a, env) for a in i['args']]
            for k in (0, 1):
                if vs[k] is not None and bool(vs[k][1]) != val:
                    return self.assume(i['args'][1 - k], val, env, facts, d + 1)
        if op == 'select' and i.get('ty') == 'i1':
            c, a, b = i['args']
            cc = self.ev(c, env)
            if cc is not None and cc != 'N':
                return self.assume(a if cc[1] else b, val, env, facts, d + 1)
            ca = self.ev(a, env)
            cb = self.ev(b, env)
            if cb is not None and cb != 'N' and bool(cb[1]) != val:
                return self.assume(c, True, env, facts, d + 1) and self.assume(a, val, env, facts, d + 1)
            if ca is not None and ca != 'N' and bool(ca[1]) != val:
                return self.assume(c, False, env, facts, d + 1) and self.assume(b, val, env, facts, d + 1)
        if op == 'icmp' and i['pred'] in ('eq', 'ne'):
            eq = val == (i['pred'] == 'eq')
            key = self.congruent(x)
            if key is not None:
                env[key] = ('c', int(eq))
            for k in (0, 1):
                c = self.ev(i['args'][k], env)
                other = i['args'][1 - k]
                if c == ('c', 0):
                    if eq:
                        return self.fact(other, ('c', 0), env, facts, d + 1)
                    return self.fact(other, 'N', env, facts, d + 1)
                if c and c != 'N' and eq:
                    return self.fact(other, c, env, facts, d + 1)
        return True

    def fact(self, o, v, env, facts, d):
        cur = self.ev(o, env)
        if cur is not None:
            if cur != v and not (cur not in ('N',) and v == 'N' and cur[1] != 0):
                return False
        if 'p' in o:
            env[('p', o['p'])] = v
        if 'i' in o:
            x = o['i']
            i = self.fn.ins.get(x)
            if i is None:
                return True
            env.setdefault(x, v)
            if i.get('ty') == 'i1':
                return self.assume(o, v != ('c', 0), env, facts, d + 1)
            if i['op'] in ('zext', 'sext', 'trunc', 'freeze') and v in ('N', ('c', 0), ('c', 1)):
                src = self.fn.val(i['args'][0])
                if src is not None and src.get('ty') == 'i1':
                    return self.assume(i['args'][0], v != ('c', 0), env, facts, d + 1)
        return True

    def freeze(self, env):
        return tuple(sorted(((k, v) for k, v in env.items() if k in self.tracked or isinstance(k, tuple)), key=repr))

    def congruent(self, x):
        """('k', form) shared by all comparisons of the same two places, or None"""
        if x not in self._keys:
            i = self.fn.ins[x]
            k = None
            if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne') and all('i' in a or 'p' in a for a in i['args']):
                l = lin(self.fn, i['args'][0]).add(lin(self.fn, i['args'][1]), -1)
                if l:
                    t = sorted(((repr(s), c) for s, c in l.items()))
                    if t[0][1] < 0:
                        t = [(s, -c) for s, c in t]
                    phis = frozenset(s[1] for s in l if isinstance(s, tuple) and s[0] == 'phi')
                    flds = frozenset(f for s in l if isinstance(s, tuple) for f in path_leaves(s) if f[0] == 'field')
                    k = ('k', tuple(t), phis, flds)
            self._keys[x] = k
        return self._keys[x]

    def clobber(self, i, env):
        """forget comparisons of places the instruction may write"""
        ks = [k for k in env if isinstance(k, tuple) and k[0] == 'k']
        if not ks:
            return
        if i['op'] == 'store' or (i['op'] in ('call', 'invoke') and mm(cname(i), r'std::vector<.*::(push_back|emplace_back|insert|erase|clear|pop_back|resize|operator=|swap)(?![a-z_])')):
            a = i['args'][1] if i['op'] == 'store' else i['args'][0]
            fl = set(f for f in path_leaves(self.fn.path(a)) if f[0] == 'field')
            for k in ks:
                if k[3] & fl:
                    env.pop(k)

    def kill(self, x, env):
        """x is about to be redefined"""
        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'k' and x in k[2]]:
            env.pop(k)
        for u in self.fn.users.get(x, []):
            if u in self.tracked and u not in env:
                v = self.ev({'i': u}, env)
                if v is not None:
                    env[u] = v
        env.pop(x, None)

    def run(self):
        fn = self.fn
        start = (fn.entry, self.init, ())
        parent = {start: None}
        work = [start]
        self.exits = set()
        while work:
            cur = work.pop()
            node, st, envt = cur
            self.visited += 1
            if self.visited > self.max_states:
                raise AnchorError('state limit reached in ' + fn.name)
            env = dict(envt)
            i = fn.ins[node]
            if node in self.tracked and i['op'] != 'phi':
                self.kill(node, env)
            try:
                st2 = self.step(st, ('ins', node)) if i['op'] != 'phi' else st
            except Violation as e:
                raise self.explain(e, cur, parent, [])
            if st2 is None:
                continue
            if i['op'] == 'select' and node in self.tracked and self.ev(i['args'][0], env) is None:
                # follow both choices separately
                for val in (True, False):
                    e2 = dict(env)
                    facts = []
                    if not self.assume(i['args'][0], val, e2, facts):
                        continue
                    s3 = st2
                    try:
                        for x, v in facts:
                            s3 = self.step(s3, ('cond', x, v))
                            if s3 is None:
                                break
                    except Violation as e:
                        raise self.explain(e, cur, parent, facts)
                    if s3 is None:
                        continue
                    v = self.ev(i['args'][1 if val else 2], e2)
                    if v is not None:
                        e2[node] = v
                    nxt = (self.fn.next[node], s3, self.freeze(e2))
                    self.transitions += 1
                    if nxt not in parent:
                        parent[nxt] = cur
                        work.append(nxt)
                continue
            self.clobber(i, env)
            for kind, t in fn.succs(node):
                if kind == 'unwind' and not self.unwind:
                    continue
                e2 = dict(env)
                s3 = st2
                facts = []
                if 'cond' in i and kind.startswith('br'):
                    k = int(kind[2:])
                    if i['op'] == 'br':
                        if not self.assume(i['cond'], k == 0, e2, facts):
                            continue
                    else:
                        if k > 0:
                            if not self.fact(i['cond'], ('c', i['cases'][k - 1]), e2, facts, 0):
                                continue
                        else:
                            v = self.ev(i['cond'], e2)
                            if v and v != 'N' and v[1] in i['cases']:
                                continue
                try:
                    s3 = self.step(s3, ('edge', node, kind)) if kind not in ('seq',) else s3
                    if s3 is None:
                        continue
                    for x, val in facts:
                        s3 = self.step(s3, ('cond', x, val))
                        if s3 is None:
                            break
                    if s3 is None:
                        continue
                    if t in (EXC, RET):
                        s3 = self.step(s3, ('exit', t))
                        self.transitions += 1
                        self.exits.add((t, s3))
                        continue
                except Violation as e:
                    raise self.explain(e, cur, parent, facts)
                # phis at the head of the target block
                if fn.ins[t]['op'] == 'phi' or True:
                    if fn.block_of[t] != fn.block_of[node] or fn.ins[node]['op'] in ('br', 'switch', 'invoke'):
                        pb = fn.block_of[node]
                        news = {}
                        for q in fn.blocks[fn.block_of[t]]:
                            if q['op'] != 'phi':
                                break
                            if q['id'] in self.tracked:
                                for inc in q['inc']:
                                    if inc['b'] == pb:
                                        news[q['id']] = self.ev(inc['v'], e2)
                        for q in news:
                            self.kill(q, e2)
                        for q, v in news.items():
                            if v is not None:
                                e2[q] = v
                nxt = (t, s3, self.freeze(e2))
                self.transitions += 1
                if nxt not in parent:
                    parent[nxt] = cur
                    work.append(nxt)
        return self

    def explain(self, e, cur, parent, facts):
        trail = []
        c = cur
        while c is not None:
            trail.append(c[0])
            c = parent[c]
        trail.reverse()
        lines = []
        for n in trail:
            w = self.fn.where(n)
            if w and (not lines or lines[-1] != w) and ('include/' in w or 'config/' in w) and 'c++' not in w:
                lines.append(w)
        v = Violation(str(e))
        v.path = lines[-40:]
        v.fn = self.fn
        v.at = lines[-1] if lines else self.fn.where()
        return v


# ---------------------------------------------------------------- positions
class Lin(dict):
    """linear combination of symbols; key None is the constant"""

    def add(self, o, k=1):
        r = Lin(self)
        for s, c in o.items():
            r[s] = r.get(s, 0) + k * c
            if r[s] == 0:
                del r[s]
        return r

    def scale(self, k):
        return Lin({s: c * k for s, c in self.items() if c * k})


def narrows(i):
    """does a conversion keep the low bits of a number only?"""
    return i['op'] == 'trunc' and i.get('ty') in ('i8', 'i16')


def lin(fn, o, depth=0):
    """byte-exact linear form of an integer or pointer operand over symbols ('phi',id) and access paths"""
    from fractions import Fraction
    if isinstance(o, int):
        o = {'i': o}
    if 'c' in o:
        return Lin({None: Fraction(o['c'])}) if o['c'] else Lin()
    if 'null' in o:
        return Lin()
    i = fn.val(o)
    if i is None or depth > 60:
        return Lin({fn.path(o): Fraction(1)})
    op = i['op']
    d = depth + 1
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze') and i.get('ty') != 'i1' and not narrows(i):
        src = fn.val(i['args'][0])
        if src is None or src.get('ty') != 'i1':
            return lin(fn, i['args'][0], d)
    if op == 'add':
        return lin(fn, i['args'][0], d).add(lin(fn, i['args'][1], d))
    if op == 'sub':
        return lin(fn, i['args'][0], d).add(lin(fn, i['args'][1], d), -1)
    if op in ('mul', 'sdiv', 'udiv', 'shl', 'ashr', 'lshr'):
        c = i['args'][1].get('c')
        if c is not None and c != 0 or (c == 0 and op in ('shl', 'ashr', 'lshr')):
            k = {'mul': Fraction(c), 'sdiv': Fraction(1, c) if c else 0, 'udiv': Fraction(1, c) if c else 0, 'shl': Fraction(1 << c) if c >= 0 else 0, 'ashr': Fraction(1, 1 << c) if c >= 0 else 0, 'lshr': Fraction(1, 1 << c) if c >= 0 else 0}[op]
            return lin(fn, i['args'][0], d).scale(k)
    if op == 'getelementptr':
        b = lin(fn, i['args'][0], d)
        if i.get('off') is not None:
            if 'field' in i:
                return Lin({fn.path(o): Fraction(1)})
            return b.add(Lin({None: Fraction(i['off'])}) if i['off'] else Lin())
        if len(i['args']) == 2:
            return b.add(lin(fn, i['args'][1], d).scale(i.get('ssz', 1)))
    if op == 'phi':
        return Lin({('phi', i['id']): Fraction(1)})
    return Lin({fn.path(o): Fraction(1)})


# ---------------------------------------------------------------- units
class Unit:
    def __init__(self, data):
        self.fns = [Fn(d, self) for d in data['functions']]
        self.captures = data['captures']
        self.records = data['records']
        self.overrides = data['overrides']
        self.locs = data['locs']
        self.list = data.get('list', [])
        self.writes = data.get('writes', {})
        self.globals = data.get('globals', {})
        self.vtables = data.get('vtables', {})
        self.bases = data.get('bases', {})
        self.callers = defaultdict(set)
        for f, cs in data.get('calls', {}).items():
            for c in cs:
                if c != f:
                    self.callers[c].add(f)

    def only_called_from(self, sym, allowed, seen=None):
        """is the non-virtual function reached only through the allowed functions?"""
        if sym in self.overrides:
            return False
        seen = seen or set()
        seen.add(sym)
        cs = self.callers.get(sym, set())
        return all(c in allowed or c in seen or self.only_called_from(c, allowed, seen) for c in cs) and bool(cs)

    def get(self, label, min=1, name=None):
        r = [f for f in self.fns if f.label == label and (name is None or mm(f.name, name))]
        if len(r) < min:
            raise AnchorError('expected at least %d function(s) for "%s"%s, found %d' % (min, label, ' ' + name if name else '', len(r)))
        return r

    def one(self, label, name=None):
        return self.get(label, 1, name)[0]
