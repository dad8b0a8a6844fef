"""Delivery of events. Which functions handle and format an event, and which object
each choice gives, is read from the dispatch table of the context and evaluated under
the two assumptions 'a custom one is set' and 'none is set'; the loop over the
listeners is recognised as a walk that must hand the event to each of them once, in
order, before the adapter gets it exactly once."""
from effects import *
from sccp import *
from walk import *

TECHNIQUE = 'typestate over the walk of the listeners and the adapter call, conditional propagation of the chosen adapter and formatter through the dispatch table, effect analysis of set / reset / add / clear'
NOTE = 'the default context with the standalone adapter (the other integrations are covered by P27); listeners that change the list of listeners while they are called are not covered'

SPEC = ['root w ^w_', r'root m ^fakeit::[A-Za-z]+(Context|Fakeit)::[A-Za-z_]+(\[abi:cxx11\])?\(', 'opaque ^fakeit::[A-Za-z]*Adapter::', 'opaque ^fakeit::DefaultEventFormatter::format']
EVENTS = ('UnexpectedMethodCallEvent', 'SequenceVerificationEvent', 'NoMoreInvocationsVerificationEvent')
CLASS = 'fakeit::StandaloneFakeit'


def check(ctx):
    ctx.rule('R1', 'every listener gets every event exactly once, in order of registration')
    ctx.rule('R2', 'after the listeners the adapter gets every event exactly once')
    ctx.rule('R3', 'the adapter is the custom one when set, the built-in one otherwise')
    ctx.rule('R4', 'the text of an event is what the custom formatter when set, the built-in one otherwise, gives for it')
    ctx.rule('R5', 'setting, resetting, adding and clearing do exactly that, and delivering or formatting an event changes no registration')
    ctx.rule('R6', 'nothing in the library changes the registrations by itself')
    u = ctx.unit('events.cpp', SPEC)
    c = Context(ctx, u, CLASS)
    reg = registrations(ctx, u, c)
    for e in EVENTS:
        deliver(ctx, c, e, reg)
        text(ctx, c, e, reg)
    alone(ctx)
    for r, n in (('R1', 3), ('R2', 3), ('R3', 6), ('R4', 6), ('R5', 10), ('R6', 1)):
        ctx.need(r, n)


class Context:
    """the methods of a context class, found through its dispatch table"""

    def __init__(self, ctx, u, cls):
        self.ctx, self.u, self.cls = ctx, u, cls
        vt = u.vtables.get('vtable for ' + cls)
        ctx.anchor(vt, 'dispatch table of %s not found' % cls)
        self.slots = {}
        for e in vt[0]:
            if e and not e.startswith('typeinfo') and '::~' not in e:
                self.slots[self.key(e)] = e
        self.fns = {f.name: f for f in u.fns if f.label == 'm'}

    @staticmethod
    def key(n):
        """method and parameter types, whatever the class"""
        n = re.sub(r'\[abi:cxx11\]', '', n)
        m = re.match(r'^(?:virtual )?.*?(\w+)\((.*)\)( const)?$', n)
        t = re.sub(r'\bconst\b|fakeit::|\s|&', '', m.group(2))
        return m.group(1), t

    def find(self, name, t=''):
        n = self.slots.get((name, t))
        self.ctx.anchor(n is not None, '%s has no method %s(%s)' % (self.cls, name, t))
        f = self.fns.get(n)
        self.ctx.anchor(f is not None, 'method %s not analysed' % n)
        return f

    def cond(self, f, mem, d=0):
        """propagation in f; mem: offset of a field of the context -> value"""
        k = f.p('this')

        def atom(i, val):
            if i['op'] == 'getelementptr':
                o = offset_of(f, {'i': i['id']}, k)
                return ('own', o) if o is not None else None
            if i['op'] == 'load':
                o = offset_of(f, i['args'][0], k)
                if o is not None and o in mem:
                    return mem[o]
                return None
            if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne'):
                a, b = (val(x) for x in i['args'])
                if ('c', 0) in (a, b):
                    o = b if a == ('c', 0) else a
                    if isinstance(o, tuple) and o[0] in ('custom', 'own', 'arg'):
                        return ('c', int(i['pred'] == 'ne'))
                return None
            if i['op'] in ('call', 'invoke') and i.get('args'):
                n = i.get('virt') or cname(i)
                a = i['args'][0]
                if val(a) == ('arg', k) and d < 6 and len(i['args']) == 1:
                    e = self.slots.get(self.key(n)) if i.get('virt') else n
                    g = self.fns.get(e)
                    if g is not None:
                        r = self.cond(g, mem, d + 1).ret
                        return r if r not in (None, TOP) else TOP
            return None
        return Cond(f, atom)


def offset_of(f, o, k):
    """byte offset of an address within the receiver"""
    n = 0
    for _ in range(40):
        if o.get('p') == k:
            return n
        i = f.val(o)
        if i is None:
            return None
        if i['op'] == 'getelementptr' and i.get('off') is not None:
            n += i['off']
        elif i['op'] not in ('bitcast', 'freeze'):
            return None
        o = i['args'][0]
    return None


def registrations(ctx, u, c):
    """offsets of the custom adapter, custom formatter and list of listeners; checks what changes them"""
    out = {}
    ctors = [f for f in u.fns if f.label == 'm' and mm(f.name, r'^fakeit::DefaultFakeit::DefaultFakeit\(\)')]
    ctx.anchor(ctors, 'constructor of the default context not found')
    made = Effects(ctors[0])
    this = S('arg', 0, 'this')
    for what in ('adapter', 'formatter'):
        f = u.one('w', '^w_set_%s$' % what)
        t = Effects(f)
        ch = changes(t)
        new = S('arg', 1, f.params[1]['nm'])
        own = [e for e in ch if e.kind == 'store' and const_of(e.addr.add(S('arg', 0, 'c'), -1)) is not None]
        hit = [e for e in own if e.val == new]
        if not hit:
            ctx.fail('R5', 'set ' + what, '%s: the custom %s is not kept' % (f.where(), what))
            continue
        off = const_of(hit[-1].addr.add(S('arg', 0, 'c'), -1))
        ctx.require('R5', 'set ' + what, len(hit) == 1 and t.read(t.final(), S('arg', 0, 'c').add(K(off))) == new, '%s: the custom %s is not kept on every path' % (f.where(), what))
        rest = [e for e in ch if e is not hit[-1]]
        ctx.require('R5', 'set %s, nothing else' % what, not rest, rest and '%s: setting the custom %s changes something else' % (f.where(rest[0].iid), what))
        out[what] = int(off)
    ctx.anchor(len(out) == 2, 'registrations not found')
    if out['adapter'] == out['formatter']:
        ctx.fail('R5', 'registrations', 'custom adapter and custom formatter share one field')
    for what in ('adapter', 'formatter'):
        f = u.one('w', '^w_reset_%s$' % what)
        t = Effects(f)
        v = t.read(t.final(), S('arg', 0, 'c').add(K(out[what])))
        ctx.require('R5', 'reset ' + what, v == Lin(), '%s: after the reset the custom %s is %s' % (f.where(), what, show(v)))
        rest = [e for e in changes(t) if not (e.kind == 'store' and e.addr == S('arg', 0, 'c').add(K(out[what])))]
        ctx.require('R5', 'reset %s, nothing else' % what, not rest, rest and '%s: resetting the custom %s changes something else' % (f.where(rest[0].iid), what))
        v = made.read(made.final(), this.add(K(out[what])))
        ctx.require('R5', 'initial ' + what, v == Lin(), '%s: a new context starts with a custom %s' % (ctors[0].where(), what))
    f = u.one('w', '^w_add$')
    ms = [m for m in mutations(f)]
    ok = len(ms) == 1 and ms[0][1] in ('push_back', 'emplace_back') and appended(f, ms[0][0]) == ('arg', 1, 'h') and f.must_pass_before(RET, [ms[0][0]], unwind=False)
    ok = ok or len(ms) == 1 and ms[0][1] in ('insert', 'emplace') and at_end(f, ms[0]) and f.must_pass_before(RET, [ms[0][0]], unwind=False)
    ctx.require('R5', 'add', ok, '%s: a listener is not added at the end of the list' % (f.where(ms[0][0]) if ms else f.where()))
    if ms:
        out['list'] = offset_path(f, ms[0][0])
    rest = [e for e in changes(Effects(f)) if e.kind != 'vec']
    ctx.require('R5', 'add, nothing else', not rest, rest and '%s: adding a listener changes something else' % f.where(rest[0].iid))
    f = u.one('w', '^w_clear$')
    ms = [m for m in mutations(f)]
    ok = len(ms) == 1 and ms[0][1] == 'clear' and offset_path(f, ms[0][0]) == out.get('list') and f.must_pass_before(RET, [ms[0][0]], unwind=False)
    if not ok:
        t = Effects(f)
        v = t.vec(t.final(), S('arg', 0, 'c').add(K(out.get('list', -1))))
        ok = v != 'unknown' and v[0] == Lin()
    ctx.require('R5', 'clear', ok, '%s: clearing does not empty the list of listeners' % f.where())
    return out


def changes(t):
    """effects outside the function's own objects"""
    out = []
    for e in t.effects:
        if e.kind not in ('vec', 'store', 'own', 'dtor', 'fill', 'copy', 'loose', 'delete'):
            continue
        a = getattr(e, 'addr', None) or getattr(e, 'dst', None) or getattr(e, 'val', None)
        if a is None or any(s and s[0] in ('local', 'new') for s in a):
            continue
        if e.kind == 'vec' and e.op in VEC_READ:
            continue
        out.append(e)
    return out


def appended(f, x):
    """value added by push_back"""
    o = f.ins[x]['args'][1]
    c = copied(f, o)
    return f.path(c) if c is not None else f.path(o)


def at_end(f, m):
    p = f.path(f.ins[m[0]]['args'][1])
    return p[0] == '*' and p[1][0] == '.' and p[1][2] == '_M_finish' and appended_last(f, m[0]) == ('arg', 1, 'h')


def appended_last(f, x):
    o = f.ins[x]['args'][-1]
    c = copied(f, o)
    return f.path(c) if c is not None else f.path(o)


def offset_path(f, x):
    return offset_of(f, f.ins[x]['args'][0], 0)


def deliver(ctx, c, e, reg):
    f = c.find('handle', e)
    k = f.p('this')
    evt = ('arg', 1, f.params[1]['nm'])
    calls = []
    for x in f.order:
        i = f.ins[x]
        if i['op'] in ('call', 'invoke') and mm(i.get('virt') or cname(i), r'::handle\('):
            calls.append(x)
    ws = [w for w in walks(f) if isinstance(w, VecWalk) and base_of(w.owner) == ('arg', k, 'this')]
    told = [x for x in calls if any(w.current(f.ins[x]['args'][0]) for w in ws)]
    adapt = [x for x in calls if x not in told]
    for x in calls:
        i = f.ins[x]
        t = c.key(i.get('virt') or cname(i))[1]
        if t != e:
            ctx.fail('R1' if x in told else 'R2', e, 'handed over as %s at %s' % (t, f.where(x)))
            return
        if f.arg(x, 1) != evt:
            ctx.fail('R1' if x in told else 'R2', e, 'another event is handed over at %s' % f.where(x))
            return
    if not told:
        if adapt and any(not receiver_known(c, f, x, reg) for x in adapt):
            ctx.fail('R1', e, '%s: the listeners are not told one after the other from the first' % f.where())
        else:
            ctx.fail('R1', e, '%s: the listeners are not told' % f.where())
        return
    w = [w for w in ws if all(w.current(f.ins[x]['args'][0]) for x in told)]
    if not w:
        ctx.fail('R1', e, '%s: the listeners are told in more than one walk' % f.where(told[0]))
        return
    w = w[0]
    if w.order != 'forward':
        ctx.fail('R1', e, '%s: the listeners are told last to first' % f.where(told[0]))
        return
    each = Each(w, set(told), noun='listener')
    none = empties(f, w)

    def step1(st, ev):
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'cond' and none.get(ev[1]) is ev[2]:
            return ('done', None, 0)
        if ev[0] == 'exit' and ev[1] == RET and st[0] != 'done':
            raise Violation('handling the event can end before all listeners are told')
        return each.step(st, ev)
    ctx.sim('R1', f, step1, each.init, instance=e)
    ad = set(adapt)

    def step2(st, ev):
        ph, n = st
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'cond' and (w.done(ev[1], ev[2]) is True or none.get(ev[1]) is ev[2]):
            return ('told', n)
        if ev[0] == 'ins' and ev[1] in ad:
            if ph != 'told':
                raise Violation('the adapter gets the event before all listeners are told (%s)' % f.where(ev[1]))
            if n:
                raise Violation('the adapter gets the event a second time (%s)' % f.where(ev[1]))
            return (ph, 1)
        if ev[0] == 'exit' and ev[1] == RET and n != 1:
            raise Violation('the adapter does not get the event')
        return st
    ctx.sim('R2', f, step2, ('telling', 0), instance=e)
    chosen(ctx, 'R3', c, f, adapt, reg, 'adapter', e)
    bad = changes(Effects(f))
    ctx.require('R5', 'delivering ' + e, not bad, bad and '%s: delivering an event changes the context' % f.where(bad[0].iid))


def receiver_known(c, f, x, reg):
    r = c.cond(f, {reg['adapter']: ('custom', 'adapter')})
    return r.val(f.ins[x]['args'][0]) == ('custom', 'adapter')


def empties(f, w):
    """comparisons that tell that the list is empty: id -> truth value"""
    out = {}
    for x, i in f.ins.items():
        if i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
            continue
        a, b = (norm(f, lin(f, q), w.owner) for q in i['args'])
        d = a.add(b, -1)
        if d in (Lin({'B': 1, 'E': -1}), Lin({'B': -1, 'E': 1})):
            out[x] = i['pred'] == 'eq'
    return out


def chosen(ctx, rid, c, f, calls, reg, what, e):
    for on in (True, False):
        mem = {reg['adapter']: ('c', 0), reg['formatter']: ('c', 0)}
        for other in (False, True):
            if on:
                mem[reg[what]] = ('custom', what)
            q = 'formatter' if what == 'adapter' else 'adapter'
            mem[reg[q]] = ('custom', q) if other else ('c', 0)
            r = c.cond(f, mem)
            got = set()
            for x in calls:
                if f.block_of[x] in r.blocks:
                    i = f.ins[x]
                    got.add((r.val(i['args'][given(i, 0)]), x))
            inst = '%s, %s' % (e, 'custom %s set' % what if on else 'no custom %s' % what) + (', custom %s set' % q if other else '')
            if len(got) != 1:
                ctx.fail(rid, inst, '%s: %d receivers of the event' % (f.where(), len(got)))
                continue
            v, x = got.pop()
            if on:
                ctx.require(rid, inst, v == ('custom', what), '%s: the event goes to %s instead of the custom %s' % (f.where(x), tell(v), what))
            else:
                b = built_in(c, what)
                ctx.require(rid, inst, isinstance(v, tuple) and v[0] == 'own' and v[1] in b, '%s: the event goes to %s instead of the built-in %s' % (f.where(x), tell(v), what))


def tell(v):
    if v == ('c', 0):
        return 'nothing'
    if isinstance(v, tuple) and v[0] == 'custom':
        return 'the custom ' + v[1]
    if isinstance(v, tuple) and v[0] == 'own':
        return 'a part of the context at offset %s' % v[1]
    if isinstance(v, tuple) and v[0] == 'arg':
        return 'the context itself'
    return 'an unknown object'


def built_in(c, what):
    """offsets of the parts of the context whose type is an adapter / a formatter"""
    out = set()
    for f in c.u.fns:
        if f.label != 'm' or not mm(f.name, r'^%s::%s\(\)|^fakeit::DefaultFakeit::DefaultFakeit\(\)' % (c.cls, c.cls.split('::')[-1])):
            continue
        for x, i in f.ins.items():
            tgt = None
            if i['op'] == 'store' and 'vtable for' in str(i['args'][0]):
                m = re.search(r"vtable for (fakeit::\w+)", str(i['args'][0]))
                tgt, o = m.group(1), i['args'][1]
            elif i['op'] in ('call', 'invoke') and i.get('args'):
                m = re.match(r'^(fakeit::(\w+))::\2\(', cname(i))
                if m:
                    tgt, o = m.group(1), i['args'][0]
            if tgt is None or mm(tgt, r'Fakeit$|FakeitContext$|::(Verification)?Event(Handler|Formatter)$'):
                continue
            vt = c.u.vtables.get('vtable for ' + tgt)
            if vt is None:
                ok = mm(tgt, 'Adapter$' if what == 'adapter' else 'Formatter$')
            else:
                ok = any(e and mm(e, r'::%s(\[abi:cxx11\])?\(' % ('handle' if what == 'adapter' else 'format')) for e in vt[0])
            off = offset_of(f, o, 0)
            if ok and off is not None:
                out.add(off)
    c.ctx.anchor(out, 'built-in %s of %s not found' % (what, c.cls))
    return out


def text(ctx, c, e, reg):
    f = c.find('format', e)
    evt = [('arg', k, p['nm']) for k, p in enumerate(f.params) if p['nm'] not in ('this',) and 'agg.result' not in p['nm']]
    res = [k for k, p in enumerate(f.params) if 'agg.result' in p['nm']]
    ctx.anchor(len(evt) == 1 and len(res) == 1, 'shape of ' + f.name)
    calls = [x for x in f.order if f.ins[x]['op'] in ('call', 'invoke') and mm(f.ins[x].get('virt') or cname(f.ins[x]), r'::format(\[abi:cxx11\])?\(')]
    for x in calls:
        i = f.ins[x]
        t = c.key(i.get('virt') or cname(i))[1]
        if t != e or f.arg(x, given(i, 1)) != evt[0]:
            ctx.fail('R4', e, '%s: formats another event' % f.where(x))
            return
    cs = set(calls)

    def step(n, ev):
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'ins' and ev[1] in cs:
            return 'one' if n == 'none' else 'more'
        if ev[0] == 'exit' and ev[1] == RET and n == 'none':
            raise Violation('no formatter is asked for the text')
        return n
    ctx.sim('R4', f, step, 'none', instance=e)
    src = result(f, res[0])
    ctx.require('R4', e + ', result', src is not None and src <= cs, '%s: the text is not what the formatter gave' % f.where())
    chosen(ctx, 'R4', c, f, calls, reg, 'formatter', e)
    bad = changes(Effects(f))
    bad = [x for x in bad if not mentions(getattr(x, 'addr', None) or getattr(x, 'dst', None) or getattr(x, 'val', None), lambda s: s[:2] == ('arg', res[0]))]
    ctx.require('R5', 'formatting ' + e, not bad, bad and '%s: formatting an event changes the context' % f.where(bad[0].iid))


def result(f, k):
    """calls that give the result (in place, or moved / copied from a local)"""
    out, todo, seen = set(), [('p', k)], set()
    while todo:
        w = todo.pop()
        if w in seen:
            continue
        seen.add(w)
        for x, i in f.ins.items():
            if i['op'] not in ('call', 'invoke') or not i.get('args') or mm(cname(i), r'^llvm\.|::~'):
                continue
            a = i['args'][0]
            la = f.local_addr(a)
            if not (a.get('p') == k if w[0] == 'p' else la is not None and la[0] == w[1]):
                continue
            if i.get('sret') is not None:
                out.add(x)
            elif mm(cname(i), r'^std::(__cxx11::)?basic_string<.*>::(basic_string|operator=)\(') and len(i['args']) > 1:
                lb = f.local_addr(i['args'][1])
                if lb is None:
                    return None
                todo.append(('l', lb[0]))
            else:
                return None
    return out


def alone(ctx):
    u = ctx.unit('core.cpp', ['root d ^fakeit::FakeitContext::handle\\('])
    pat = r'(setTestingFrameworkAdapter|resetTestingFrameworkAdapter|setCustomEventFormatter|resetCustomEventFormatter|addEventHandler|clearEventHandlers)'
    bad = sorted((b, a) for a, cs in u.callers.items() if re.search(r'\d+' + pat, a) for b in cs if re.match(r'_ZNK?6fakeit', b) and not re.search(r'\d+' + pat, b))
    ctx.require('R6', 'callers of set, reset, add and clear', not bad, bad and '%s calls %s' % bad[0])
