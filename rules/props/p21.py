"""Argument and result passing along the four layers of a mocked call: every layer hands on each
argument in its position (the caller's object itself for reference parameters) and returns the
result of the next layer; decided on the inlined graph of every layer for every witness signature."""
from common import *
from stubs import close

TECHNIQUE = 'def-use analysis of arguments and results through every layer of a mocked call (entry function, record, action list, action), with a typestate automaton for the one call made and the exceptions let through'
NOTE = 'witness signatures: no to eight parameters; values, pointers, constant and non-constant lvalue references, rvalue references, move-only types; results by value, by reference and void; what the test\'s own callable does is outside'
SPEC = ['root entry fakeit::MethodProxyCreator<.*>::methodProxyX<',
        'over handle ^fakeit::MethodInvocationHandler<.*>::handleMethodInvocation',
        'over seq ^fakeit::ActualInvocationHandler<.*>::handleMethodInvocation',
        'over act ^fakeit::Action<.*>::invoke',
        'opaque std::get<']
USED_UP = 'fakeit::NoMoreRecordedActionException'


def check(ctx):
    u = ctx.unit('call.cpp', SPEC)
    ctx.rule('R1', 'the entry function of a mocked method hands every argument in its position to the record of the method and returns its result')
    ctx.rule('R2', 'the record keeps every argument in its position (references stay references) and shows that very list to matching and behaviour')
    ctx.rule('R3', 'the list of arguments reaches the action as it is and the result of the action is returned')
    ctx.rule('R4', 'an action calls its function once with every argument of the list in its position and returns the result')
    ctx.rule('R5', 'an exception of the next layer is let through, except the one that says the actions are used up')
    for f in u.get('entry', 12):
        entry(ctx, f)
    for f in u.get('handle', 10):
        handle(ctx, f)
    for f in u.get('seq', 10):
        through(ctx, f)
    for f in u.get('act', 20):
        action(ctx, f)
    for x, n in (('R1', 60), ('R2', 40), ('R3', 20), ('R4', 60), ('R5', 60)):
        ctx.need(x, n)


def template_args(n, cls):
    k = n.find(cls + '<') + len(cls) + 1
    out = []
    while k < len(n):
        e = close(n, k, ',')
        out.append(n[k:e].strip())
        if n[e:e + 1] != ',':
            break
        k = e + 1
    return out


def is_ref(t):
    return t.endswith('&')


def first(f):
    return f.p('this') + 1



def local_from(f, o, source, target):
    """a local object holding what `source` accepts, and nothing else before the call target"""
    la = f.local_addr(o)
    if la is None or la[1]:
        return None
    made = 0
    for x in f.order:
        i = f.ins[x]
        if i['op'] == 'store':
            k = f.local_addr(i['args'][1])
            if k and k[0] == la[0]:
                if not source(i['args'][0], True):
                    return 'holds %s' % render(f.arg(x, 0))
                made += 1
        elif i['op'] in ('call', 'invoke') and x != target:
            for n, a in enumerate(i['args']):
                k = f.local_addr(a)
                if not k or k[0] != la[0]:
                    continue
                nm = cname(i)
                if mm(nm, r'^llvm\.(lifetime|dbg|experimental)') or mm(nm, '::~'):
                    continue
                if n == 0 and is_copy_ctor(nm) and source(i['args'][1], False):
                    made += 1
                elif n == 0 and len(i['args']) > 1:
                    return 'is changed at %s' % f.where(x)
                elif 'const&' not in nm:
                    return 'may be changed at %s' % f.where(x)
    return '' if made else 'is not set'


def passes(ctx, rid, f, inst, o, k, typ, target, what):
    """operand o of the call target is the argument `what(operand)` accepts"""
    if what(o, False):
        ctx.ok(rid, inst)
        return
    p = f.path(o)
    if is_ref(typ):
        ctx.fail(rid, inst, '%s: argument %d, a %s, is passed on as %s, not the object of the caller' % (f.where(target), k + 1, typ, render(p)))
        return
    why = local_from(f, o, what, target)
    ctx.require(rid, inst, why == '', '%s: argument %d is passed on as %s%s' % (f.where(target), k + 1, render(p), ', which ' + why if why else ''))


def alternatives(f, o, seen=()):
    i = f.val(o)
    if i is not None and i['op'] == 'phi' and i['id'] not in seen:
        return [y for x in i['inc'] for y in alternatives(f, x['v'], seen + (i['id'],))]
    if i is not None and i['op'] == 'select':
        return alternatives(f, i['args'][1], seen) + alternatives(f, i['args'][2], seen)
    return [o]


def result(ctx, rid, f, ids, inst):
    n = 0
    for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
        z = b[-1]
        if z['op'] != 'ret':
            continue
        n += 1
        if not z.get('args'):
            continue
        odd = [o for o in alternatives(f, z['args'][0]) if o.get('i') not in ids and not o.get('undef')]
        ctx.require(rid, inst + ', result', not odd, '%s: returned is %s, not the result of the call' % (f.where(z['id']), odd and render(f.path(odd[0]))))
    if f.p('this') == 1:
        for x in ids:
            o = f.ins[x]['args'][0]
            ok = f.path(o)[:2] == ('arg', 0)
            if not ok:
                c = [y for y in f.order if f.ins[y]['op'] in ('call', 'invoke') and is_copy_ctor(cname(f.ins[y])) and f.arg(y, 0)[:2] == ('arg', 0) and f.arg(y, 1) == f.path(o)]
                ok = len(c) == 1
            ctx.require(rid, inst + ', result', ok, '%s: the result of the call is not what is returned' % f.where(x))
        for y in f.order:
            i = f.ins[y]
            if y not in ids and i['op'] in ('call', 'invoke') and i['args'] and f.arg(y, 0)[:2] == ('arg', 0) and not is_copy_ctor(cname(i)) and not mm(cname(i), r'^llvm\.|::~'):
                ctx.fail(rid, inst + ', result', '%s: the result is changed by %s' % (f.where(y), cname(i)[:120]))
    return n


def once(ctx, rid, f, ids, inst):
    """one call on every normal way out; exceptions of the call are let through"""
    def step(st, ev):
        if ev[0] == 'ins':
            x = ev[1]
            i = f.ins[x]
            if x in ids:
                if st != 'start':
                    raise Violation('the call is made again (%s)' % f.where(x))
                return 'running' if i['op'] == 'invoke' else 'returned'
            if st in ('threw', 'caught') and i['op'] in ('call', 'invoke'):
                n = cname(i)
                if mm(n, r'^__cxa_begin_catch'):
                    return 'caught'
                if mm(n, r'^__cxa_throw'):
                    raise Violation('an exception of the call is replaced by %s (%s)' % (throw_type(i), f.where(x)))
                if mm(n, r'^__cxa_rethrow'):
                    return 'threw'
            return st
        if ev[0] == 'edge' and ev[1] in ids:
            return 'threw' if ev[2] == 'unwind' else 'returned'
        if ev[0] == 'cond' and st == 'threw':
            t = catch_type(f, ev[1])
            if t == USED_UP and cond_true(f, ev[1], ev[2]):
                return 'usedup'
            return st
        if ev[0] == 'exit' and ev[1] == RET:
            if st in ('threw', 'caught'):
                raise Violation('an exception of the call is swallowed')
            if st != 'returned':
                raise Violation('returns without the result of the call')
        return st
    ctx.sim(rid, f, step, 'start', instance=inst)


def entry(ctx, f):
    types = template_args(f.name, 'MethodProxyCreator')[1:]
    inst = f.short()
    ids = f.calls(r'::handleMethodInvocation\(')
    if not ids:
        ctx.fail('R1', inst, '%s: the record of the method is not called' % f.where())
        return
    for x in ids:
        i = f.ins[x]
        a = i['args'][given(i, 0) + 1:]
        ctx.require('R1', inst + ', number of arguments', len(a) == len(types), '%s: %d arguments are passed on, %d received' % (f.where(x), len(a), len(types)))
        for k, (o, t) in enumerate(zip(a, types)):
            passes(ctx, 'R1', f, '%s, argument %d' % (inst, k + 1), o, k, t, x, lambda o, v, k=k: plain(f.path(o))[:2] == ('arg', first(f) + k) and (v or by_pointer(f, first(f) + k)))
    result(ctx, 'R1', f, ids, inst)
    once(ctx, 'R5', f, ids, inst)


def plain(p):
    return p[1] if p[0] == 'zext' else p


def by_pointer(f, k):
    return f.params[k]['ty'].startswith('ptr')


def handle(ctx, f):
    types = template_args(f.name, 'RecordedMethodBody')[1:]
    inst = f.short()
    ids = f.calls(r'ActualInvocationHandler<.*>::handleMethodInvocation\(')
    if not ids:
        ctx.fail('R2', inst, '%s: no behaviour is called' % f.where())
        return
    kept = None
    for x in f.order:
        i = f.ins[x]
        if i['op'] not in ('call', 'invoke') or not mm(cname(i), r'^std::tuple<.*>::tuple(<.*>)?\('):
            continue
        p = f.arg(x, 0)
        if base_of(p)[0] == 'call' and mm(base_of(p)[2], r'^operator new'):
            ctx.anchor(kept is None, '%s: the list of arguments is made twice' % inst)
            kept = (x, p)
    if types:
        ctx.anchor(kept is not None, '%s: no list of arguments found' % inst)
        x = kept[0]
        i = f.ins[x]
        if is_copy_ctor(cname(i)):
            src = [y for y in f.order if f.ins[y]['op'] in ('call', 'invoke') and mm(cname(f.ins[y]), r'^std::tuple<.*>::tuple(<.*>)?\(') and f.arg(y, 0) == f.arg(x, 1)]
            ctx.anchor(len(src) == 1, '%s: the list of arguments is copied from %s' % (inst, render(f.arg(x, 1))))
            x = src[0]
            i = f.ins[x]
        a = i['args'][1:]
        for y in {x, kept[0]}:
            held = template_args(cname(f.ins[y]), 'std::tuple')
            for k, t in enumerate(types):
                ctx.require('R2', '%s, kind of argument %d' % (inst, k + 1), k < len(held) and is_ref(t) == is_ref(held[k]), '%s: argument %d is a %s and is kept as a %s' % (f.where(y), k + 1, t, held[k] if k < len(held) else '?'))
        ctx.require('R2', inst + ', number of arguments', len(a) == len(types), '%s: %d arguments are kept of %d' % (f.where(x), len(a), len(types)))
        for k, (o, t) in enumerate(zip(a, types)):
            passes(ctx, 'R2', f, '%s, argument %d' % (inst, k + 1), o, k, t, x, lambda o, v, k=k: f.path(o)[:2] == ('arg', first(f) + k) if not v else f.path(o)[:1] == ('*',) and f.path(o)[1][:2] == ('arg', first(f) + k))
        mine = base_of(kept[1])
        for y in f.order:
            i = f.ins[y]
            if y != kept[0] and i['op'] in ('call', 'invoke') and i['args'] and f.arg(y, 0) == kept[1] and y not in ids and not mm(cname(i), r'::~|^llvm\.|^std::get<'):
                ctx.fail('R2', inst + ', list', '%s: the list of arguments is changed' % f.where(y))
        for y in ids:
            i = f.ins[y]
            o = i['args'][given(i, 0) + 1]
            p = f.path(o)
            ok = p == kept[1] or local_from(f, o, lambda o, v: not v and f.path(o) == kept[1], y) == ''
            ctx.require('R2', inst + ', behaviour', ok, '%s: the behaviour gets %s, not the arguments of the call' % (f.where(y), render(p)))
        for y in f.calls(r'Matcher::matches\('):
            p = f.arg(y, 1)
            ctx.require('R2', inst + ', matching', p == mine, '%s: matching looks at %s, not at this call' % (f.where(y), render(p)))
    result(ctx, 'R2', f, ids, inst)
    once(ctx, 'R5', f, ids, inst)


def through(ctx, f):
    inst = f.short()
    ids = [x for x in f.calls(r'(ActualInvocationHandler|Action)<.*>::(handleMethodInvocation|invoke)\(') if 'virt' in f.ins[x]]
    if not ids:
        ctx.fail('R3', inst, '%s: no action is called' % f.where())
        return
    for x in ids:
        i = f.ins[x]
        o = i['args'][given(i, 0) + 1]
        what = lambda o, v: not v and f.path(o)[:2] == ('arg', first(f))
        ctx.require('R3', inst + ', arguments', what(o, False) or local_from(f, o, what, x) == '', '%s: the action gets %s, not the arguments of the call' % (f.where(x), render(f.path(o))))
    result(ctx, 'R3', f, ids, inst)
    once(ctx, 'R5', f, ids, inst)


def action(ctx, f):
    inst = f.short()
    if all(b[-1]['op'] != 'ret' for b in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks)):
        return
    if mm(f.name, r'^fakeit::ReturnDefaultValue<'):
        return
    cls = re.match(r'^fakeit::(\w+)<', f.name)
    ctx.anchor(cls is not None, '%s: unknown action' % inst)
    types = template_args(f.name, cls.group(1))[1:]
    ids = f.calls(r'^std::function<.*>::operator\(\)\(')
    if not ids:
        ctx.fail('R4', inst, '%s: the function of the action is not called' % f.where())
        return

    def get(o, k):
        i = f.val(o)
        m = i is not None and i['op'] in ('call', 'invoke') and re.search(r'\bstd::get<([0-9]+)ul', cname(i))
        return bool(m) and int(m.group(1)) == k and f.arg(i['id'], 0)[:2] == ('arg', first(f))
    for x in ids:
        i = f.ins[x]
        g = given(i, 0)
        me = base_of(f.arg(x, g))
        ctx.require('R4', inst + ', function', me[:2] == ('arg', f.p('this')), '%s: called is %s' % (f.where(x), render(f.arg(x, g))))
        a = i['args'][g + 1:]
        ctx.require('R4', inst + ', number of arguments', len(a) == len(types), '%s: %d arguments are passed, the call had %d' % (f.where(x), len(a), len(types)))
        for k, (o, t) in enumerate(zip(a, types)):
            passes(ctx, 'R4', f, '%s, argument %d' % (inst, k + 1), o, k, t, x, lambda o, v, k=k: get(o, k) if not v else f.val(o) is not None and f.val(o)['op'] == 'load' and get(f.val(o)['args'][0], k))
    result(ctx, 'R4', f, ids, inst)
    once(ctx, 'R5', f, ids, inst)
