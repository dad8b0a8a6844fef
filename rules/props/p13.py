"""The three kinds of acceptance objects are taken from what Using, Matching and a
plain method context install. For each, the outcome of its test is computed from the
outcomes of the parts (every combination): per-argument matchers must be the
conjunction of "matcher k accepts argument k", a predicate must be the outcome of the
predicate on the arguments in order, the default must be true. The test of a method
context must be "same method" and the installed object's outcome, and "same method"
must be equality of a number drawn fresh for every method body."""
from stubs import *
from itertools import product
from props.p12 import family

TECHNIQUE = 'conditional constant propagation over the acceptance tests for every combination of part outcomes, with dataflow of positions (matcher k, argument k, given value k) on the lowered program'
NOTE = 'methods with up to five parameters of all passing kinds stand for any number; a call already accepted by the same matcher object may be accepted without asking again'

SPEC = ['over m ^fakeit::ActualInvocation<.*>::Matcher::matches', 'over i ^fakeit::Invocation::Matcher::matches',
        'over o ^fakeit::MethodMockingContext<.*>::Context::isOfMethod', 'root u ^w_u_', 'root d ^w_d_',
        r'root b ^fakeit::RecordedMethodBody<.*>::RecordedMethodBody\(fakeit::FakeitContext']
TEST = r'^fakeit::ActualInvocation<.*>::Matcher::matches\('
ONE = r'^fakeit::TypedMatcher<.*>::matches\('
FRESH = r'^std::__atomic_base<.*>::(operator\+\+|fetch_add)|^std::atomic<.*>::(operator\+\+|fetch_add)'


def base_class(c):
    return re.sub(r'<.*$', '', c)


def check(ctx):
    ctx.rule('R1', 'per-argument matchers: accepted exactly when matcher k accepts argument k for every k')
    ctx.rule('R2', 'predicate: accepted exactly when the predicate returns true for the arguments in order')
    ctx.rule('R3', 'no matchers: always accepted')
    ctx.rule('R4', 'a method context accepts exactly the calls of its method that its matcher accepts')
    ctx.rule('R5', 'calls belong to the same method exactly when they carry the number drawn for its body')
    ctx.rule('R6', 'values and matchers are installed in the order written, the predicate as given')
    u = ctx.unit('accept.cpp', SPEC)
    kinds = {}
    for w in u.get('u', 11):
        installed(ctx, w, kinds)
    for w in u.get('d', 3):
        default(ctx, w, kinds)
    ctx.anchor(set(kinds.values()) >= {'args', 'pred', 'any'}, 'acceptance objects not found: %s' % kinds)
    n = {}
    for f in u.get('m', 15):
        c = base_class(f.name)
        ctx.anchor(c in kinds, 'no statement installs ' + c)
        n[kinds[c]] = n.get(kinds[c], 0) + 1
        {'args': arguments, 'pred': predicate, 'any': anything}[kinds[c]](ctx, f)
    ctx.anchor(n.get('args', 0) >= 5 and n.get('pred', 0) >= 5 and n.get('any', 0) >= 6, 'too few acceptance tests: %s' % n)
    for f in u.get('i', 6):
        if mm(f.name, r'MethodMockingContext'):
            context(ctx, f)
    for f in u.get('o', 6):
        same(ctx, f)
    fresh(ctx, u)
    for r, k in (('R1', 20), ('R2', 10), ('R3', 6), ('R4', 20), ('R5', 20), ('R6', 11)):
        ctx.need(r, k)


# ---- positions ----------------------------------------------------------------
def origin(fn, o, seen=0):
    """operand behind casts, null-merging phis and dynamic_cast"""
    i = fn.val(o)
    if i is None or seen > 10:
        return o
    if i['op'] in ('call', 'invoke') and cname(i) == '__dynamic_cast':
        return origin(fn, i['args'][0], seen + 1)
    if i['op'] == 'phi':
        vs = [x['v'] for x in i['inc'] if not (isinstance(x['v'], dict) and x['v'].get('null'))]
        if len(vs) == 1:
            return origin(fn, vs[0], seen + 1)
    return o


def slot(fn, o):
    """k when the operand is element k of a vector that is a part of `this`"""
    p = fn.path(origin(fn, o))
    if p[0] != '*':
        return None
    p, k = p[1], 0
    if p[0] == 'at':
        k = p[2][0][1] if len(p[2]) == 1 and p[2][0][0] == 'const' else None
        p = p[1]
    if p[0] == 'call' and mm(p[2], r'^std::vector<.*>::(operator\[\]|at)\('):
        i = fn.ins[p[1]]
        q = fn.arg(p[1], 1)
        if q[0] != 'const' or not this_field(fn.arg(p[1], 0)):
            return None
        return q[1]
    if p[0] == '*' and this_field(p[1]) and isinstance(k, int):
        return k
    return None


def argument(fn, o, seen=0):
    """k when the operand is the address of argument k of the call under test"""
    p = fn.path(o)
    if p[0] == 'call':
        i = fn.ins[p[1]]
        m = re.search(r'std::get<(\d+)ul', cname(i))
        if m and base_of(fn.arg(p[1], 0)) == ('arg', 1, fn.params[1]['nm']):
            return int(m.group(1))
        return None
    if p[0] == '*' and p[1][0] == 'call' and seen:
        return argument(fn, {'i': p[1][1]}, seen + 1)
    la = fn.local_addr(o)
    if la and seen < 4:
        got = set()
        for y in fn.order:
            j = fn.ins[y]
            if j['op'] == 'store' and fn.local_addr(j['args'][1]) == la:
                got.add(argument(fn, j['args'][0], seen + 1))
            elif j['op'] in ('call', 'invoke') and len(j['args']) > 1 and fn.local_addr(j['args'][0]) == la and is_copy_ctor(cname(j)):
                got.add(argument(fn, j['args'][1], seen + 1))
        if len(got) == 1:
            return got.pop()
    return None


def known(fn, i):
    """True for the comparison 'the call was already accepted by this object'"""
    if i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
        return False
    a, b = (fn.path(o) for o in i['args'])
    for x, y in ((a, b), (b, a)):
        if y == ('arg', 0, 'this') and x[0] == '*' and base_of(x) == ('arg', 1, fn.params[1]['nm']):
            return True
    return False


def null_test(fn, i):
    """comparison of an element (or its cast) with null: elements are never null and of the right type"""
    if i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
        return False
    for x, y in ((0, 1), (1, 0)):
        if isinstance(i['args'][y], dict) and i['args'][y].get('null') and slot(fn, i['args'][x]) is not None:
            return True
    return False


def outcome(fn, parts, hit, extra=lambda i: None):
    def atom(i, val):
        if known(fn, i):
            return ('c', int(hit == (i['pred'] == 'eq')))
        if null_test(fn, i):
            return ('c', int(i['pred'] == 'ne'))
        if i['op'] in ('call', 'invoke') and i['id'] in parts:
            return ('c', parts[i['id']])
        return extra(i)
    return Cond(fn, atom)


def arity(fn):
    """parameters of the method, from the call type"""
    m = re.search(r'::matches\(fakeit::ActualInvocation<', fn.name)
    k = m.end()
    e = close(fn.name, k)
    n, d = (1 if fn.name[k:e].strip() else 0), k
    while True:
        d = close(fn.name, d, ',')
        if d >= e:
            return n
        n += 1
        d += 1


# ---- the three kinds ----------------------------------------------------------
def arguments(ctx, f):
    inst = f.short()
    n = arity(f)
    calls = f.calls(ONE)
    at = {}
    for c in calls:
        k, a = slot(f, f.ins[c]['args'][0]), argument(f, f.ins[c]['args'][1])
        ctx.anchor(k is not None and a is not None, 'matcher asked at %s not understood (%s, %s)' % (f.where(c), k if k is not None else f.path(origin(f, f.ins[c]['args'][0])), a if a is not None else f.path(f.ins[c]['args'][1])))
        ctx.require('R1', '%s matcher %d' % (inst, k), k == a, 'matcher %d is asked about argument %d (%s)' % (k + 1, a + 1, f.where(c)))
        at[c] = k
    for bits in product((0, 1), repeat=n):
        res = outcome(f, {c: bits[k] if k < n else 0 for c, k in at.items()}, False)
        ctx.stats['automaton_states'] += len(res.v)
        want = int(all(bits))
        if res.ret != ('c', want):
            no = [str(k + 1) for k in range(n) if not bits[k]]
            ctx.fail('R1', '%s outcome' % inst, 'a call is %s although %s (%s)' % ('not rejected' if not want else 'not accepted', 'matcher %s rejects its argument' % ', '.join(no) if no else 'all matchers accept', f.where()))
            break
    else:
        ctx.ok('R1', '%s outcome of %d combinations' % (inst, 2 ** n))
    res = outcome(f, {c: 1 for c in at}, True)
    ctx.require('R1', inst + ' asked again', res.ret == ('c', 1), 'a call accepted before is rejected (%s)' % f.where())


def predicate(ctx, f):
    inst = f.short()
    n = arity(f)
    calls = f.calls(r'^std::function<bool.*>::operator\(\)')
    ctx.anchor(calls, 'no predicate called in ' + inst)
    for c in calls:
        ctx.anchor(this_field(f.arg(c, 0)), 'predicate called at %s not understood' % f.where(c))
        ks = [argument(f, a) for a in f.ins[c]['args'][1:1 + n]]
        ctx.require('R2', inst + ' arguments', ks == list(range(n)), 'the predicate gets the arguments %s (%s)' % (ks, f.where(c)))
    for v in (0, 1):
        res = outcome(f, {c: v for c in calls}, False)
        ctx.require('R2', '%s outcome %d' % (inst, v), res.ret == ('c', v), 'the predicate alone does not decide (%s)' % f.where())


def anything(ctx, f):
    ctx.require('R3', f.short(), outcome(f, {}, False).ret == ('c', 1) and outcome(f, {}, True).ret == ('c', 1), 'a call is not always accepted although there are no matchers (%s)' % f.where())


# ---- the method context ----------------------------------------------------------
def context(ctx, f):
    inst = f.short()
    own = f.calls(r'::Context::isOfMethod\(')
    ask = f.calls(TEST)
    ctx.anchor(own and ask, 'parts of the test of %s not found' % inst)
    for c in own:
        b = base_of(f.arg(c, 1))
        ctx.require('R4', inst + ' method', b[0] == 'arg' and b[1] == 1, 'the method compared is not that of the call (%s)' % f.where(c))
    for c in ask:
        o = f.path(origin(f, f.ins[c]['args'][1]))
        ctx.require('R4', inst + ' call', o[0] == 'arg' and o[1] == 1, 'the matcher is asked about something else than the call (%s)' % f.where(c))
        b = base_of(f.arg(c, 0))
        ctx.require('R4', inst + ' matcher', b == ('arg', 0, 'this'), 'the matcher asked is not that of the context (%s)' % f.where(c))
    for m, a in product((0, 1), repeat=2):
        def extra(i):
            if i['op'] == 'icmp' and any(isinstance(o, dict) and o.get('null') for o in i['args']):
                return ('c', int(i['pred'] == 'ne'))
            return None
        parts = {c: m for c in own}
        parts.update({c: a for c in ask})
        res = outcome(f, parts, False, extra)
        want = int(m and a)
        ctx.require('R4', '%s method %s, matcher %s' % (inst, 'same' if m else 'other', 'accepts' if a else 'rejects'), res.ret == ('c', want),
                    'a call of %s method, which the matcher %s, is %s (%s)' % ('the same' if m else 'another', 'accepts' if a else 'rejects', 'not accepted' if want else 'not rejected', f.where()))


def same(ctx, f):
    inst = f.short()
    for eq in (0, 1):
        seen = []

        def atom(i, val):
            if i['op'] == 'icmp':
                a, b = (f.path(o) for o in i['args'])
                for x, y in ((a, b), (b, a)):
                    if ident(f, x) == 'call' and ident(f, y) == 'body':
                        seen.append(i['id'])
                        return ('c', int((i['pred'] == 'eq') == bool(eq))) if i['pred'] in ('eq', 'ne') else TOP
            return None
        c = Cond(f, atom)
        ctx.require('R5', '%s %s number' % (inst, 'equal' if eq else 'other'), c.ret == ('c', eq), 'calls are told apart by something else than the number of the method (%s)' % f.where())


def ident(f, p):
    """'call' for the number in the method given, 'body' for the number of the context's own body"""
    if p[0] != '*':
        return None
    a = p[1]
    if a == ('arg', 1, f.params[1]['nm']) or a[0] == '.' and a[1] == ('arg', 1, f.params[1]['nm']) and mm(a[2], 'id$'):
        return 'call'
    if a[0] == '.' and mm(a[2], 'id$') and a[1][0] == '.':
        a = a[1]
    if a[0] == '.' and mm(a[3] or '', 'RecordedMethodBody') and a[1][0] == 'call':
        return 'body'
    return None


def fresh(ctx, u):
    n = 0
    for f in u.get('b', 6):
        draws = f.calls(FRESH)
        ids = []
        for x in f.stores():
            t = f.arg(x, 1)
            if t[0] == '.' and t[1] == ('arg', 0, 'this') and mm(str(t[2]), 'method') or t[0] == '.' and (mm(str(t[2]), '^_?id$') or mm(t[3] or '', r'fakeit::MethodInfo$') and mm(type_at(f.unit, t), r'\bint$|\blong$') or t[1] == ('arg', 0, 'this') and mm(type_at(f.unit, t), r'MethodInfo$')):
                ids.append(x)
        ctx.anchor(ids, 'number of the body not set in ' + f.short())
        for x in ids:
            s = f.arg(x, 0)
            while s[0] not in ('call',) and len(s) > 1 and isinstance(s[1], tuple) and s[0] in ('trunc', 'zext', 'sext', 'add', 'adj'):
                s = s[1]
            good = not any(narrows(f.ins[y]) for y in f.ins if f.ins[y]['op'] == 'trunc') and s[0] == 'call' and s[1] in draws and shared(f, s[1]) or bumped(f, f.ins[x]['args'][0])
            ctx.require('R5', f.short() + ' fresh number', good, 'the number of a method body is not drawn fresh from a shared counter (%s)' % f.where(x))
            n += 1
    ws = []
    for m, l in u.writes.items():
        for rec, fld, val, loc in l:
            if mm(rec, r'fakeit::MethodInfo$') and (mm(fld, 'id') or mm(type_at(u, ('.', None, fld, 'struct.fakeit::MethodInfo')), r'\bint$|\blong$')) and not mm(m, r'10MethodInfoC[12]E'):
                ws.append((m, loc))
    ctx.require('R5', 'number never changed', not ws, 'the number of a method is changed after it was drawn (%s)' % ws[:1])


def bumped(f, o, d=0):
    """an atomic addition to a shared counter that was expanded in place?"""
    i = f.val(o)
    if i is None or d > 6:
        return False
    if i['op'] in ('zext', 'sext', 'freeze'):
        return bumped(f, i['args'][0], d + 1)
    if i['op'] in ('add', 'sub'):
        return any('c' in i['args'][k] and bumped(f, i['args'][1 - k], d + 1) for k in (0, 1))
    step = i['args'][1].get('c') if i['op'] == 'atomicrmw' and i.get('rmw') == 'add' else None
    return step not in (None, 0) and base_of(f.arg(i['id'], 0))[0] == 'global'


def shared(f, c):
    p = f.arg(c, 0)
    return base_of(p)[0] == 'global'


# ---- installation ----------------------------------------------------------------
def target(fn, c):
    p = fn.arg(c, 0)
    return p[0] == '.' and (mm(str(p[2]), 'atcher') or mm(type_at(fn.unit, p), 'Matcher')) and base_of(p) == ('arg', 0, fn.params[0]['nm'])


def put(ctx, fn):
    """the heap object put into the matcher field of the context"""
    objs = objects(fn)
    out = []
    for c in fn.calls(r'.'):
        if not target(fn, c) or len(fn.ins[c]['args']) < 2:
            continue
        p = fn.arg(c, 1)
        if p not in objs:
            la = fn.local_addr(fn.ins[c]['args'][1])
            for y in fn.calls(r'::(shared_ptr|__shared_ptr)<'):
                if la and fn.local_addr(fn.ins[y]['args'][0]) == la and len(fn.ins[y]['args']) > 1:
                    p = fn.arg(y, 1)
        ctx.anchor(p in objs, 'object installed at %s not understood' % fn.where(c))
        out.append((c, p, objs[p]))
    ctx.anchor(len(out) == 1, '%s installs %d objects' % (fn.name, len(out)))
    return out[0]


WANT = {'using1': ['Eq'], 'using2': ['Eq'] * 2, 'using4': ['Eq'] * 4, 'gt4': ['Eq', 'Gt', 'Lt', 'Eq'], 'call1': ['Eq'], 'call2': ['Eq'] * 2, 'call4': ['Eq'] * 4}


def installed(ctx, w, kinds):
    k = w.name.split('_')[2]
    c, p, (cls, fields) = put(ctx, w)
    must = w.must_pass_before(RET, [c])
    ctx.require('R6', w.name + ' installed', must, 'the matchers are only installed on some paths (%s)' % w.where(c))
    if k.startswith('pred'):
        kinds[base_class(cls)] = 'pred'
        src = [f for f in fields.values() if f[1] is not None]
        ctx.require('R6', w.name, any(callable_of(w, f[1]) == ('given', ('arg', 1, w.params[1]['nm'])) for f in src), 'the predicate installed is not the one given (%s)' % w.where(c))
        return
    kinds[base_class(cls)] = 'args'
    vec = [f for f in fields.values() if f[1] is not None and w.local_addr(f[1])]
    ctx.anchor(len(vec) == 1, 'list of matchers installed by %s not understood' % w.name)
    la = w.local_addr(vec[0][1])
    adds = [x for x in w.calls(r'^(void )?std::vector<.*>::(push_back|emplace_back|insert|emplace)') if w.local_addr(w.ins[x]['args'][0]) == la]
    other = [x for x in adds if not mm(cname(w.ins[x]), r'::(push_back|emplace_back)')]
    ctx.require('R6', w.name + ' appended', not other, 'a matcher is not added at the end of the list (%s)' % (other and w.where(other[0])))
    want = WANT[k]
    objs = objects(w)
    got = []
    for x in adds:
        q = w.path(w.ins[x]['args'][1])
        if q not in objs:
            q = pointee(w, w.ins[x]['args'][1])
        if q not in objs:
            got.append((None, None))
            continue
        cl, fl = objs[q]
        m = re.match(r'(\w+)MatcherCreator', family(cl))
        src = set()
        for f in fl.values():
            if f[1] is not None:
                src |= set(l[1] for l in path_leaves(w.path(f[1])) if l[0] == 'arg') if f[0] == 'store' else origins(w, f[1])
        got.append((m.group(1) if m else family(cl), src.pop() if len(src) == 1 else None))
    exp = [(n, j + 1) for j, n in enumerate(want)]
    ctx.require('R6', w.name, got == exp, 'the matchers installed are %s instead of %s (%s)' % (got, exp, w.where(c)))
    for a, b in zip(adds, adds[1:]):
        ctx.require('R6', '%s order %d' % (w.name, b), w.must_pass_before(b, [a]), 'matchers are not added in the order written (%s)' % w.where(b))


def pointee(w, o):
    la = w.local_addr(o)
    for x in w.stores():
        if la and w.local_addr(w.ins[x]['args'][1]) == la:
            return w.arg(x, 0)
    return None


def default(ctx, w, kinds):
    objs = objects(w)
    cs = set(base_class(c) for c, f in objs.values() if mm(c, r'InvocationMatcher|atcher<'))
    ctx.anchor(len(cs) == 1, 'acceptance object of a plain context not found: %s' % cs)
    kinds[cs.pop()] = 'any'
