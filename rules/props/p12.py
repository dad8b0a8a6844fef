"""Every public matcher is built once per operand type; the class of the object
it yields and the field its expected value goes to are read off the vtable store
and the initialisation. The comparison of that class is then propagated under each
of the possible outcomes of comparing argument and expected value (less, equal,
greater, unordered; for class types the outcome of each overloaded operator), and
its result must be the truth table of the operator the matcher is named after."""
from common import *
from sccp import *

TECHNIQUE = 'conditional constant propagation of every matcher over the finite domain of comparison outcomes, compared with the truth table of the named operator'
NOTE = 'operand types of the witness (signed, unsigned, mixed widths, floating point with NaN, class types, C strings) stand for all; strcmp, abs and std::string are trusted'

SPEC = ['root w ^w_', 'over m ^fakeit::TypedMatcher<.*>::matches', 'opaque ^(Key|Obj)::', 'opaque ^operator[=!<>]']
WANT = {'Eq': ('eq',), 'Ne': ('lt', 'gt', 'un'), 'Gt': ('gt',), 'Ge': ('gt', 'eq'), 'Lt': ('lt',), 'Le': ('lt', 'eq')}
OPER = {'Eq': '==', 'Ne': '!=', 'Gt': '>', 'Ge': '>=', 'Lt': '<', 'Le': '<='}
ALLOWED_CASTS = {'sext', 'zext', 'sitofp', 'uitofp', 'fpext'}


def check(ctx):
    ctx.rule('R1', 'each matcher accepts exactly when (argument, expected value) satisfies the operator of its name')
    ctx.rule('R2', 'ApproxEq accepts exactly when the absolute difference is not above the margin')
    ctx.rule('R3', 'the wildcard accepts everything')
    ctx.rule('R4', 'a bare value becomes an equality matcher on that value, the wildcard a matcher that accepts everything, a matcher itself')
    ctx.rule('R5', 'the expected value of a matcher is the value it was given')
    u = ctx.unit('args.cpp', SPEC)
    fns = {}
    for f in u.get('m', 60):
        fns.setdefault(f.name.rsplit('::matches(', 1)[0], f)
    made = {}
    for w in u.get('w', 90):
        k = w.name.split('_')
        if k[1] in ('m', 'a', 'any'):
            made[w.name] = built(ctx, w)
    for name, obs in sorted(made.items()):
        ctx.anchor(len(obs) == 1, '%s builds %d matchers' % (name, len(obs)))
        cls, fields = obs[0]
        f = fns.get(cls)
        ctx.anchor(f is not None, 'comparison of %s not found' % cls)
        k = name.split('_')
        if k[1] == 'm':
            src = [x for x, p in fields.items() if given(p, 0)]
            ctx.require('R5', name, len(src) == 1 and len(fields) == 1, 'the expected value of %s is not what was given: %s' % (k[2], show(fields)))
            if len(src) == 1:
                compare(ctx, f, k[2], k[3], src[0], name)
        elif k[1] == 'a':
            e = [x for x, p in fields.items() if given(p, 0)]
            m = [x for x, p in fields.items() if given(p, 1)]
            ctx.require('R5', name, len(e) == 1 and len(m) == 1, 'expected value and margin of ApproxEq are not what was given: %s' % show(fields))
            if len(e) == 1 and len(m) == 1:
                approx(ctx, f, e[0], m[0], name)
        else:
            wildcard(ctx, f, name)
    collected(ctx, u, fns, made)
    ctx.need('R1', 80)
    ctx.need('R2', 3)
    ctx.need('R3', 2)
    ctx.need('R4', 6)


def show(fields):
    return ', '.join('%s = %s' % (k[1], render(v)) for k, v in sorted(fields.items(), key=str))


def given(p, k):
    """p is the k-th given value or a value-preserving conversion of it"""
    while p[0] in ALLOWED_CASTS:
        p = p[1]
    return p == ('*', ('arg', k, p[1][2])) if p[0] == '*' and p[1][0] == 'arg' else p[0] == 'obj' and p[1][0] == 'arg' and p[1][1] == k


def vtable_of(o):
    if isinstance(o, dict):
        if 'd' in o and o['d'].startswith('vtable for '):
            return o['d'][len('vtable for '):]
        for a in o.get('args', []):
            r = vtable_of(a)
            if r:
                return r
    return None


def built(ctx, w, every=False):
    """[(class, {field: source})] of the heap objects a function builds; the class
    is that of the last vtable stored"""
    out = []
    for x in w.order:
        i = w.ins[x]
        if i['op'] not in ('call', 'invoke') or not mm(cname(i), r'^operator new'):
            continue
        root = w.path({'i': x})
        cls, fields = None, {}
        for y in w.order:
            j = w.ins[y]
            if j['op'] == 'store':
                t = w.arg(y, 1)
                if t == root and vtable_of(j['args'][0]):
                    cls = vtable_of(j['args'][0])
                elif t[0] == '.' and t[1] == root:
                    fields[(t[3], t[2])] = w.arg(y, 0)
            elif j['op'] in ('call', 'invoke') and j['args']:
                t = w.arg(y, 0)
                if t[0] == '.' and t[1] == root and not mm(cname(j), r'::~'):
                    s = w.arg(y, 1) if len(j['args']) > 1 else ('none',)
                    n = cname(j)
                    fields[(t[3], t[2])] = ('obj', s) if is_copy_ctor(n) or mm(n, r'memcpy') else ('call', y, n)
        if cls:
            out.append((cls, fields))
    return out


def strip_casts(fn, o):
    casts = []
    while True:
        i = fn.val(o)
        if i is not None and i['op'] in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            casts.append(i['op'])
            o = i['args'][0]
            continue
        return o, casts


def role(fn, o, field, second=None):
    """'a' for the argument, 'e' for the expected value (by value or by address)"""
    o, casts = strip_casts(fn, o)
    if any(c not in ALLOWED_CASTS for c in casts):
        return None
    return place(fn, fn.path(o), field, second)


def place(fn, p, field, second=None):
    if p[0] == '*':
        p = p[1]
    if p[0] == 'arg' and p[1] == 1:
        return 'a'
    if p[0] == '.' and p[1] == ('arg', 0, 'this'):
        if (p[3], p[2]) == field:
            return 'e'
        if second is not None and (p[3], p[2]) == second:
            return 'm'
    return None


def decide(pred, rel):
    """outcome of a comparison predicate when the relation of its operands is rel"""
    t = {'eq': {'eq'}, 'ne': {'lt', 'gt', 'un'}, 'lt': {'lt'}, 'le': {'lt', 'eq'}, 'gt': {'gt'}, 'ge': {'gt', 'eq'}}
    if pred in ('eq', 'ne'):
        return rel in t[pred]
    k = pred[1:]
    if k not in t:
        return {'ord': rel != 'un', 'uno': rel == 'un'}.get(pred)
    s = set(t[k])
    if k == 'ne':
        s = {'lt', 'gt'}
    return rel in s


def fdecide(pred, rel):
    if pred in ('ord', 'uno'):
        return (rel == 'un') == (pred == 'uno')
    if pred in ('true', 'false'):
        return pred == 'true'
    base = {'eq': {'eq'}, 'ne': {'lt', 'gt'}, 'lt': {'lt'}, 'le': {'lt', 'eq'}, 'gt': {'gt'}, 'ge': {'gt', 'eq'}}[pred[1:]]
    if rel == 'un':
        return pred[0] == 'u'
    return rel in base


FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}


def compare(ctx, fn, name, kind, field, inst):
    base = name[3:] if name.startswith('Str') else name
    if kind == 'obj':
        outcomes(ctx, fn, base, field, inst)
        return
    rels = ['lt', 'eq', 'gt'] + (['un'] if kind in ('double', 'mixed') else [])
    unsigned = kind == 'unsigned'
    for rel in rels:
        def atom(i, val, rel=rel):
            if i['op'] == 'icmp' or i['op'] == 'fcmp':
                a, b = (role(fn, o, field) for o in i['args'])
                if {a, b} == {'a', 'e'}:
                    r = rel if a == 'a' else FLIP[rel]
                    if i['op'] == 'fcmp':
                        return ('c', int(fdecide(i['pred'], r)))
                    p = i['pred']
                    if p not in ('eq', 'ne') and (p[0] == 'u') != unsigned:
                        return TOP
                    return ('c', int(decide(p, r)))
                if i['op'] == 'fcmp' and a == b and a is not None and rel != 'un':
                    return ('c', int(fdecide(i['pred'], 'eq')))
                # sign of a string comparison
                va, vb = val(i['args'][0]), val(i['args'][1])
                if isinstance(va, tuple) and va[0] == 'sign' and vb == ('c', 0):
                    return ('c', int(decide(i['pred'], va[1]))) if i['pred'][0] != 'u' else TOP
                if isinstance(vb, tuple) and vb[0] == 'sign' and va == ('c', 0):
                    return ('c', int(decide(i['pred'], FLIP[vb[1]]))) if i['pred'][0] != 'u' else TOP
            if i['op'] in ('call', 'invoke'):
                n = cname(i)
                if n == 'strcmp':
                    a, b = (text(fn, o, field) for o in i['args'][:2])
                    if {a, b} == {'a', 'e'}:
                        return ('sign', rel if a == 'a' else FLIP[rel])
                m = re.search(r'basic_string<.*>::compare\((.*)\) const$', n)
                if m and m.group(1) == 'char const*':
                    a, b = text(fn, i['args'][0], field), text(fn, i['args'][1], field)
                    if (a, b) == ('e', 'a'):
                        return ('sign', FLIP[rel])
                m = re.search(r'operator(==|!=|<=|>=|<|>)<char', n)
                if m and kind == 'cstr':
                    a, b = (text(fn, o, field) for o in i['args'][:2])
                    if {a, b} == {'a', 'e'}:
                        r = rel if a == 'a' else FLIP[rel]
                        return ('c', int(r in WANT[[k for k, v in OPER.items() if v == m.group(1)][0]]))
            return None
        c = Cond(fn, atom)
        ctx.stats['automaton_states'] += len(c.v)
        want = rel in WANT[base]
        word = {'lt': 'less than', 'eq': 'equal to', 'gt': 'greater than', 'un': 'unordered with'}[rel]
        got = {('c', 0): 'rejects', ('c', 1): 'accepts'}.get(c.ret, 'does not decide on this comparison alone about')
        ctx.require('R1', '%s: argument %s expected' % (inst, word), c.ret == ('c', int(want)),
                    '%s %s an argument %s the expected value (%s)' % (name, got, word, fn.where()))


def text(fn, o, field):
    """whose characters a C string or std::string operand holds"""
    i = fn.val(o)
    if i is not None and i['op'] in ('call', 'invoke') and mm(cname(i), r'::(c_str|data)\(\) const$'):
        o = i['args'][0]
    return place(fn, fn.path(o), field)


def outcomes(ctx, fn, name, field, inst):
    """class types: the result is the outcome of the named operator on (argument, expected)"""
    op = OPER[name]
    want = 'operator%s(Obj const&, Key const&)' % op
    calls = [x for x in fn.calls(r'^operator(==|!=|<=|>=|<|>)\(')]
    for res in (0, 1):
        other = []

        def atom(i, val):
            if i['op'] in ('call', 'invoke') and mm(cname(i), r'^operator(==|!=|<=|>=|<|>)\('):
                a, b = (place(fn, fn.path(o), field) for o in i['args'][:2])
                if cname(i) == want and (a, b) == ('a', 'e'):
                    return ('c', res)
                other.append(i['id'])
                return TOP
            return None
        c = Cond(fn, atom)
        used = [x for x in other if c.reached(x)]
        what = 'holds' if res else 'does not hold'
        got = {('c', 0): 'rejects', ('c', 1): 'accepts'}.get(c.ret, 'does not decide by that operator about')
        msg = '%s %s an object for which (argument %s expected) %s' % (name, got, op, what)
        if used:
            msg += '; it uses %s' % cname(fn.ins[used[0]])
        ctx.require('R1', '%s: operator %s' % (inst, what), c.ret == ('c', res), msg + ' (%s)' % fn.where())
    ctx.anchor(calls, 'no operator called in ' + fn.short())


def approx(ctx, fn, e, m, inst):
    for sign in ('lt', 'eq', 'gt'):
        for rel in ('lt', 'eq', 'gt'):
            # relation of the absolute difference to the margin, sign of (argument - expected)
            def atom(i, val):
                op = i['op']
                args = i.get('args', [])
                if op in ('sub', 'fsub'):
                    a, b = (role(fn, o, e, m) for o in args)
                    if (a, b) == ('a', 'e'):
                        return ('diff', 1)
                    if (a, b) == ('e', 'a'):
                        return ('diff', -1)
                if op == 'load' and place(fn, fn.path({'i': i['id']}), e, m) == 'm':
                    return ('margin', 1)
                vs = [val(a) for a in args]
                if op == 'fneg' and isinstance(vs[0], tuple) and vs[0][0] == 'diff':
                    return ('diff', -vs[0][1])
                if op == 'fneg' and isinstance(vs[0], tuple) and vs[0][0] == 'margin':
                    return ('margin', -vs[0][1])
                if op in ('sub', 'fsub') and isinstance(vs[1], tuple) and vs[1][0] == 'margin' and zero(vs[0]):
                    return ('margin', -vs[1][1])
                if op in ('sub', 'fsub') and isinstance(vs[1], tuple) and vs[1][0] == 'diff' and vs[0] in (('c', 0), ('f', 0), ('f', -0.0), ('f', '0'), ('f', '-0')):
                    return ('diff', -vs[1][1])
                if op in ('sext', 'zext', 'fpext', 'sitofp') and isinstance(vs[0], tuple) and vs[0][0] in ('diff', 'abs', 'margin'):
                    return vs[0]
                if op in ('call', 'invoke') and mm(cname(i), r'^(std::abs\(|std::fabs\(|f?abs[fl]?$|l?labs$|llvm\.f?abs)') and isinstance(vs[0], tuple) and vs[0][0] in ('diff', 'abs'):
                    return ('abs',)
                if op in ('icmp', 'fcmp'):
                    a, b = vs
                    dec = fdecide if op == 'fcmp' else decide
                    if op == 'icmp' and i['pred'][0] == 'u':
                        return None
                    r = against(a, b, sign, rel)
                    if r is not None:
                        return ('c', int(dec(i['pred'], r)))
                    if isinstance(a, tuple) and a[0] == 'diff' and zero(b):
                        return ('c', int(dec(i['pred'], sign if a[1] > 0 else FLIP[sign])))
                    x, y = (role(fn, o, e, m) for o in args)
                    if {x, y} == {'a', 'e'}:
                        return ('c', int(dec(i['pred'], sign if x == 'a' else FLIP[sign])))
                return None
            c = Cond(fn, atom)
            ctx.stats['automaton_states'] += len(c.v)
            want = rel in ('lt', 'eq')
            word = {'lt': 'below', 'eq': 'equal to', 'gt': 'above'}[rel]
            got = {('c', 0): 'rejects', ('c', 1): 'accepts'}.get(c.ret, 'does not decide on the absolute difference alone about')
            ctx.require('R2', '%s: difference %s margin, argument %s expected' % (inst, word, sign), c.ret == ('c', int(want)),
                        'ApproxEq %s an argument whose absolute difference is %s the margin (%s)' % (got, word, fn.where()))


def zero(v):
    return isinstance(v, tuple) and v[0] in ('c', 'f') and float(v[1]) == 0


def against(a, b, sign, rel):
    """relation of two values, one the difference or its absolute value, the other the margin, signed"""
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return None
    if a[0] == 'margin' and b[0] in ('diff', 'abs'):
        r = against(b, a, sign, rel)
        return FLIP[r] if r is not None else None
    if a[0] not in ('diff', 'abs') or b[0] != 'margin':
        return None
    s = {'lt': -1, 'eq': 0, 'gt': 1}[sign]
    s = abs(s) if a[0] == 'abs' else s * a[1]
    s *= b[1]           # a ? -m  is the mirror of  -a ? m
    r = rel if s >= 0 else 'lt' if rel in ('lt', 'eq') else None
    return FLIP[r] if b[1] < 0 and r is not None else r


def wildcard(ctx, fn, inst):
    c = Cond(fn)
    ctx.require('R3', inst, c.ret == ('c', 1), 'the wildcard does not accept every argument (%s)' % fn.where())


def family(cls):
    """creator a matcher class belongs to"""
    k = cls.find('::createMatcher')
    if k < 0:
        return cls
    t, d = cls[:k], 0
    if t.endswith('>'):
        for q in range(len(t) - 1, -1, -1):
            d += (t[q] == '>') - (t[q] == '<')
            if d == 0:
                t = t[:q]
                break
    return re.search(r'(\w+)$', t).group(1)


def collected(ctx, u, fns, made):
    eq = set(family(o[0][0]) for n, o in made.items() if n.startswith('w_m_Eq_'))
    gt = set(family(o[0][0]) for n, o in made.items() if n.startswith('w_m_Gt_'))
    anyf = set(family(o[0][0]) for n, o in made.items() if n.startswith('w_any_'))
    le = set(family(o[0][0]) for n, o in made.items() if n.startswith('w_m_Le_'))
    want = {'bare': [(eq, 1)], 'any': [(anyf, None)], 'anyc': [(anyf, None)], 'gt': [(gt, 1)], 'three': [(gt, 1), (eq, 2), (le, 3)]}
    for w in u.get('w'):
        k = w.name.split('_')
        if k[1] != 'c':
            continue
        obs = built(ctx, w)
        exp = want[k[2]]
        msg = None
        if len(obs) != len(exp):
            msg = '%d matchers are made for %d values' % (len(obs), len(exp))
        else:
            for (cls, fields), (fam, src) in zip(obs, exp):
                if family(cls) not in fam:
                    msg = 'a %s value becomes %s' % (k[2], family(cls))
                elif src is not None and [x for x, p in fields.items() if given(p, src)] == []:
                    msg = 'the matcher of value %d expects %s' % (src, show(fields))
        ctx.require('R4', w.name, msg is None, str(msg) + ' (%s)' % w.where())
