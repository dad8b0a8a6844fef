"""The closure behind a spied method as a path automaton: the original entry is put into the
object's table, the original is called once on the object with the closure's arguments, and on
every way out the entry found before is back; result and exception pass unchanged."""
from stubs import callable_of, closure_class, objects
from table import *

TECHNIQUE = 'typestate automaton over all paths (normal and exceptional) of every closure behind a spied method, with an effect analysis naming the entry, the values written to it and the arguments of the call'
NOTE = 'witness signatures with scalar, class, reference and rvalue reference parameters and results; running out of memory while the guard is set up is not covered; several threads are outside'


def check(ctx):
    u = unit(ctx)
    ctx.rule('R1', 'the original runs with its own entry in the table, and on return and on exception the entry found before is back')
    ctx.rule('R2', 'the call is made once, on the object of the mock, through the method named')
    ctx.rule('R3', 'each argument of the closure is passed in its own position')
    ctx.rule('R4', 'the result of the original is returned and its exception is let through')
    ctx.rule('R5', 'nothing but that entry is changed')
    ctx.rule('R6', 'Spy and SpyWithoutVerify install the original of the method they were given')
    u.sel = selector(ctx, u)
    rl = {}
    for k, cls, made in CLASSES:
        r = roles(ctx, u, k, cls)
        r.rel = {x: getattr(r, x) - r.impl for x in ('inst', 'clone', 'saved', 'own')}
        rl[cls] = r
    seen = 0
    for f in u.get('orig', 4):
        if 'Dtor' in f.name:
            continue
        cls = re.search(r'MockImpl<(\w+)>', f.name).group(1)
        c = capture(ctx, u, rl[cls], f)
        if c is None:
            continue
        body = [g for g in u.get('orig/closure', 1) if g.name.startswith(c.cls + '::operator()')]
        ctx.anchor(len(body) == 1, '%s: %d bodies of %s' % (f.name, len(body), c.cls))
        closure(ctx, u, rl[cls], body[0], c)
        seen += 1
    ctx.anchor(seen >= 8, 'only %d closures' % seen)
    spies(ctx)
    for x, n in (('R1', 8), ('R2', 8), ('R3', 8), ('R4', 8), ('R5', 8), ('R6', 3)):
        ctx.need(x, n)


class Cap:
    pass


def capture(ctx, u, r, f):
    """what the closure built by f holds: byte offsets of the mock, the method and the object"""
    t = Tab(f, u)
    fn = [e for e in t.of('call') if mm(e.name, r'std::function<.*>::function<')]
    if not fn:
        if all(f.blocks[b][-1]['op'] != 'ret' for b in t.order):
            return None
        ctx.anchor(False, '%s: no closure made' % f.name)
    e = fn[-1]
    c = Cap()
    c.cls = closure_class(e.name)
    obj = e.args[1]
    this = S('arg', f.p('this'), 'this')
    held = {}
    for s in t.of('store'):
        d = const_of(s.addr.add(obj, -1))
        if d is not None and 0 <= d < 64:
            held[d] = s
    c.mock = c.method = c.obj = None
    for d, s in held.items():
        q = single(s.val)
        if q and q[0] == 'ld' and const_of(uz(q[1]).add(this, -1)) is not None and c.mock is None:
            c.mock, c.m = d, s.val
    for d, s in held.items():
        q = single(s.val)
        if q and q[0] == 'ev' and q[2] == (0,):
            w = single(uz(q[1]))
            if w and w[0] == 'ld' and const_of(uz(w[1]).add(this, -1)) is not None:
                c.method = d
        if c.mock is not None and s.val == S('ld', fz(c.m.add(K(r.rel['inst'])))):
            c.obj = d
    return c


def closure(ctx, u, r, f, c):
    t = Tab(f, u, unwind=True)
    name = f.short()
    this = S('arg', f.p('this'), 'this')
    m = S('ld', fz(this.add(K(c.mock)))) if c.mock is not None else None
    mp = S('ld', fz(this.add(K(c.method)))) if c.method is not None else None
    ctx.anchor(m is not None and mp is not None, '%s: what the closure holds is not understood' % name)
    off = S('off', fz(mp))
    place = [S('ld', fz(S('ld', fz(m.add(K(r.rel['inst'])))))).add(off, 8), S('ld', fz(m.add(K(r.rel['clone'])))).add(off, 8)]
    orig = S('ld', fz(S('ld', fz(m.add(K(r.rel['saved'])))).add(off, 8)))
    old = [S('ld', fz(p)) for p in place]
    recv = [S('ev', fz(mp), (1,)).add(S('ld', fz(m.add(K(r.rel['inst'])))))]
    if c.obj is not None:
        recv.append(S('ev', fz(mp), (1,)).add(S('ld', fz(this.add(K(c.obj))))))
    kinds = {}
    for e in t.of('store', 'own', 'vec', 'fill', 'copy', 'loose', 'delete', 'dtor'):
        a = getattr(e, 'addr', None)
        a = a if a is not None else getattr(e, 'dst', None)
        a = a if a is not None else e.val
        if any(s and s[0] in ('local', 'new') for s in a):
            continue
        if e.kind == 'store' and a in place:
            kinds[e.iid] = 'orig' if e.val == orig else 'fake' if e.val in old else show(e.val)
            continue
        if f.p('this') == 1 and any(s and s[0] == 'arg' and s[1] == 0 for s in a):
            continue
        ctx.fail('R5', name, '%s: also changes %s' % (f.where(e.iid), show(a)))
    ctx.ok('R5', name)
    calls = []
    for i in f.ins.values():
        if 'fp' in i and 'virt' not in i and i['op'] in ('call', 'invoke') and not probe_call(t, i):
            calls.append(i)
    if not calls:
        ctx.fail('R2', name, '%s: the original is not called' % f.where())
        return
    for i in calls:
        k = 1 if i.get('sret') is not None else 0
        a = [t.value(x) for x in i['args']]
        ok = a[k] in recv
        ctx.require('R2', '%s, object (%s)' % (name, f.where(i['id'])), ok, '%s: the call is made on %s' % (f.where(i['id']), show(a[k])))
        fp = alternatives(t.value(i['fp']))
        code = S('ev', fz(mp), (0,))
        good = all(x == code or any(s == single(code) for s in deep(x)) for x in fp) and any(x == code or x == S('inttoptr', fz(code)) for x in fp)
        ctx.require('R2', '%s, method (%s)' % (name, f.where(i['id'])), good, '%s: called is %s' % (f.where(i['id']), ' or '.join(show(x) for x in fp)))
        ps = [j for j, p in enumerate(f.params) if j > f.p('this')]
        ctx.require('R3', '%s, number' % name, len(a) - k - 1 == len(ps), '%s: %d arguments are passed, %d received' % (f.where(i['id']), len(a) - k - 1, len(ps)))
        for n, (j, v) in enumerate(zip(ps, a[k + 1:])):
            p = S('arg', j, f.params[j]['nm'])
            src = [p, S('ld', fz(p))]
            q = single(v)
            if v not in src and q and q[0] == 'local':
                made = [e for e in t.of('call') if e.args and e.args[0] == v and len(e.args) > 1 and mm(e.name, r'::(basic_string|[\w]+)\(') and not mm(e.name, '::~')]
                st = [e for e in t.of('store') if e.addr == v]
                ok = len(made) == 1 and made[0].args[1] == p and not st or len(st) == 1 and st[0].val in src and not made
            else:
                ok = v in src
            ctx.require('R3', '%s, argument %d' % (name, n + 1), ok, '%s: argument %d is %s' % (f.where(i['id']), n + 1, show(v)))
    ids = {i['id'] for i in calls}
    automaton(ctx, f, t, name, kinds, ids)
    for b in t.order:
        z = f.blocks[b][-1]
        if z['op'] != 'ret' or not z.get('args'):
            continue
        vs = alternatives(t.value(z['args'][0]))
        ok = all(single(v) and single(v)[0] in ('call', 'invoke') and single(v)[1] in ids for v in vs)
        ctx.require('R4', name + ', result', ok, '%s: returned is %s' % (f.where(z['id']), ' or '.join(show(v) for v in vs)))
    if f.params and f.p('this') == 1:
        ok = all(t.value(i['args'][0]) == S('arg', 0, f.params[0]['nm']) for i in calls)
        ctx.require('R4', name + ', result', ok, '%s: the result of the original is not handed on as it is' % f.where(calls[0]['id']))


def automaton(ctx, f, t, name, kinds, ids):
    FN = r'^(void )?std::function<void \(\)>::'

    def step(st, ev):
        slot, out, full = st
        if ev[0] == 'ins':
            x = ev[1]
            if x in kinds:
                return (kinds[x], out, full)
            if x in ids:
                if slot != 'orig':
                    raise Violation('the original is called while the entry is %s (%s)' % ('the mocked one, so it only reaches the mock again' if slot == 'fake' else slot, f.where(x)))
                if out:
                    raise Violation('the original is called again (%s)' % f.where(x))
                return (slot, 'running' if f.ins[x]['op'] == 'invoke' else 'returned', full)
            i = f.ins[x]
            if i['op'] in ('call', 'invoke') and i['args']:
                n = cname(i)
                a = single(t.value(i['args'][0])) if mm(n, FN) or mm(n, r'std::(function|swap)') else None
                b = single(t.value(i['args'][1])) if a and len(i['args']) > 1 else None
                if a and mm(n, FN + 'function<'):
                    return (slot, out, full | {a})
                if a and mm(n, FN + r'function\('):
                    return (slot, out, (full | {a}) if b in full else full - {a}) if 'const&' in n else (slot, out, (full - {a, b}) | ({a} if b in full else set()))
                if a and mm(n, FN + r'swap\('):
                    return (slot, out, (full - {a, b}) | ({b} if a in full else set()) | ({a} if b in full else set()))
                if a and mm(n, FN + r'operator=\('):
                    return (slot, out, (full - {a}) | ({a} if b in full else set()))
                if a and mm(n, FN + '~function'):
                    return (slot, out, full - {a})
                if mm(n, r'^__cxa_throw') and out == 'threw':
                    raise Violation('the exception of the original is replaced (%s)' % f.where(x))
            return st
        if ev[0] == 'edge' and ev[1] in ids:
            return (slot, 'threw' if ev[2] == 'unwind' else 'returned', full)
        if ev[0] == 'cond':
            i = f.ins[ev[1]]
            if i['op'] in ('call', 'invoke') and mm(cname(i), FN + 'operator bool'):
                a = single(t.value(i['args'][0]))
                if (a in full) != ev[2]:
                    return None
            return st
        if ev[0] == 'exit':
            if ev[1] == RET:
                if out == 'threw':
                    raise Violation('the exception of the original is swallowed')
                if out != 'returned':
                    raise Violation('returns without having called the original')
            elif out == 'returned':
                raise Violation('an exception leaves after the original returned')
            if out and slot != 'fake':
                raise Violation('when the original is left by %s the method is not mocked again' % ('return' if ev[1] == RET else 'an exception'))
            return st
        return st
    ctx.sim('R1', f, step, ('fake', None, frozenset()), instance=name)
    ctx.ok('R4', name + ', exception') if not any(b[0] == 'R1' and b[1] == name for b in ctx.bad) else None


def alternatives(v):
    q = single(v)
    if q and q[0] in ('phi', 'join') and len(q) > 2:
        return [y for x in q[2] for y in alternatives(uz(x))]
    return [v]


def deep(l):
    for s in l:
        if s is None:
            continue
        yield s
        for x in s[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple):
                try:
                    yield from deep(uz(x))
                except Exception:
                    pass


def probe_call(t, i):
    """the call asks the position probe"""
    v = t.value(i['args'][0]) if i.get('args') else Lin()
    for s in v:
        if s and s[0] == 'local':
            al = t.fn.ins.get(s[1])
            if al is not None and 'VirtualOffsetSelector' in (al.get('aty') or ''):
                return True
    return False


def spies(ctx):
    u = ctx.unit('stub.cpp', ['root s ^w_n_spy'])
    for f in u.get('s', 3):
        objs = objects(f)
        got = []
        for p, (cls, fields) in objs.items():
            if not mm(cls, r'^fakeit::'):
                continue
            for nm, (how, op, y) in fields.items():
                if op is None or how == 'store':
                    continue
                what = callable_of(f, op)
                if what and what[0] == 'call' and mm(what[2], r'::getOriginalMethod'):
                    got.append((f.path(f.ins[what[1]]['args'][1]), y))
        for k in range(len(f.params)):
            mine = [x for x, y in got if rooted(x, k)]
            put = {x for x in f.calls(r'::appendAction\(') if rooted(f.arg(x, 0), k)}
            com = {x for x in f.calls(r'Xaction::commit\(') if rooted(f.arg(x, 0), k)}

            def step(st, ev, put=put, com=com):
                if ev[0] == 'ins':
                    return 'appended' if ev[1] in put else 'installed' if ev[1] in com and st == 'appended' else st
                if ev[0] == 'exit' and ev[1] == RET and st != 'installed':
                    raise Violation('the behaviour calling the original is not put in place')
                return st
            ctx.sim('R6', f, step, 'start', instance='%s, method %d in place' % (f.name, k + 1))
            ctx.require('R6', '%s, method %d' % (f.name, k + 1), len(mine) == 1, '%s: %d behaviours for method %d call its original' % (f.where(), len(mine), k + 1))


def rooted(p, k):
    while isinstance(p, tuple) and p and p[0] != 'arg':
        p = p[1]
    return isinstance(p, tuple) and p[0] == 'arg' and p[1] == k
