"""Clearing the history: every method body of the mock is told to forget its calls, forgetting
empties exactly the list of calls, and nothing else of the mock changes."""
from props.p15 import Present
from table import *
from walk import *

TECHNIQUE = 'container flow analysis (which method bodies are told to clear) and effect analysis (what clearing changes) on the compiler IR'
NOTE = 'method bodies of the witness instantiations stand for all; stubbed data members, which clearing resets on a mock that made its object, are not covered by this property'


class Cleared(Present):
    def scan(self):
        Present.scan(self)
        for x in self.fn.calls(r'^fakeit::ActualInvocationsContainer::clear\(|^fakeit::RecordedMethodBody<.*>::clear\('):
            self.ops[x] = ('ask', ('cleared',), self.fn.ins[x]['args'][0])


def check(ctx):
    u = ctx.unit('mock.cpp', SPEC + ['over dispatch ^fakeit::MethodInvocationHandler<.*>::handleMethodInvocation'])
    ctx.rule('R1', 'clearing the history of a mock clears every method body of that mock')
    ctx.rule('R2', 'clearing a method body empties its list of calls on every path and changes nothing else')
    ctx.rule('R3', 'clearing the history changes no stub list, table or registration of the mock itself')
    u.sel = selector(ctx, u)
    for k, cls, made in CLASSES:
        r = roles(ctx, u, k, cls)
        f = u.one('m', '^w_%s_clear$' % k)
        bodies(ctx, u, r, f, cls)
        untouched(ctx, u, r, f, cls)
    for f in u.get('clear', 2):
        forget(ctx, u, f)
    for x, n in (('R1', 2), ('R2', 2), ('R3', 2)):
        ctx.need(x, n)


def bodies(ctx, u, r, f, cls):
    out = []

    def at(ev, C):
        if ev[0] == 'exit' and ev[1] == RET:
            out.append(C.get(('cleared',), (frozenset(), False))[0])
    fl = Cleared(f, of=r'ActualInvocationsContainer|Destructible|RecordedMethodBody', ask='^$', at=at)
    fl.run(ctx, 'R1', 'flow of the method bodies of ' + cls, init={('cleared',): (frozenset(), False)})
    ctx.anchor(out, 'no regular end of ' + f.name)
    for a in out:
        ok = len(a) == 1
        src = None
        if ok:
            e = list(a)[0]
            seen = []
            while isinstance(e, tuple) and e[0] in ('of', 'marked', 'in') and len(e) == 2:
                seen.append(e[0])
                e = e[1]
            src = e
            ok = seen.count('of') == 1 and isinstance(e, tuple) and e[0] == '.'
        t = Tab(f, u)
        # the list walked is the list of the mock that the tables lead to
        if ok:
            ok = e[0] == '.' and base_of(e) == ('arg', 0, 'm')
        ctx.require('R1', 'mock of ' + cls, ok, '%s: cleared are %s' % (f.where(), ', '.join(show_atom_(x) for x in a) or 'no method bodies'))


def show_atom_(a):
    if isinstance(a, tuple) and a and a[0] in ('of', 'marked', 'in', 'part', 'dup') and len(a) > 1:
        return {'of': 'elements of ', 'marked': 'existing ', 'in': '', 'part': 'some of ', 'dup': 'twice '}[a[0]] + show_atom_(a[1])
    return render(a) if isinstance(a, tuple) else str(a)


def receiver(f):
    k = f.p('this')
    return S('arg', k, 'this')


def forget(ctx, u, f):
    t = Effects(f)
    this = receiver(f)
    name = f.short()
    cls = class_of(f)
    lists = set()
    for d in u.get('dispatch', 1):
        if class_of(d) != cls:
            continue
        e = Effects(d)
        for x in e.of('vec'):
            c = const_of(x.addr.add(receiver(d), -1))
            if c is not None and x.op in ('push_back', 'emplace_back', 'insert'):
                lists.add(c)
    ctx.anchor(len(lists) == 1, '%s: list of calls not found: %s' % (name, lists))
    h = lists.pop()
    fin = t.final()
    mine = [e for e in t.of('vec') if const_of(e.addr.add(this, -1)) is not None]
    target = [e for e in mine if const_of(e.addr.add(this, -1)) == h]
    c = t.vec(fin, this.add(K(h)))
    ctx.require('R2', name, c != 'unknown' and c[0] == Lin(), '%s: calls are kept' % (f.where(target[-1].iid) if target else f.where()))
    other = []
    for e in t.effects:
        if e.kind in ('vec', 'store', 'own', 'dtor', 'fill', 'copy', 'loose', 'delete'):
            a = getattr(e, 'addr', None) or getattr(e, 'dst', None) or getattr(e, 'val', None)
            if a is None or any(s and s[0] in ('local', 'new') for s in a):
                continue
            if const_of(a.add(this, -1)) == h:
                continue
            if e.kind in ('store', 'loose') and any(s and s[0] in ('elems',) for s in a):
                continue
            other.append(e)
    ctx.require('R2', name + ', nothing else', not other, other and '%s: also changes %s' % (f.where(other[0].iid), show(getattr(other[0], 'addr', None) or getattr(other[0], 'dst', None) or other[0].val)))


def untouched(ctx, u, r, f, cls):
    t = Tab(f, u)
    m = S('arg', 0, 'm')
    bad = []
    for e in t.effects:
        a = getattr(e, 'addr', None) or getattr(e, 'dst', None)
        if e.kind == 'delete':
            a = e.val
        if a is None or e.kind in ('call', 'new'):
            continue
        if any(s and s[0] in ('local', 'new') for s in a):
            continue
        if e.kind == 'fill' and any(const_of(e.dst.add(S('ld', fz(m.add(K(o)))), -1)) is not None and const_of(e.dst.add(S('ld', fz(m.add(K(o)))), -1)) >= 8 for o in (r.own, r.inst)):
            continue
        bad.append(e)
    ctx.require('R3', 'mock of ' + cls, not bad, bad and '%s: clearing the history also changes %s' % (f.where(bad[0].iid), show(getattr(bad[0], 'addr', None) or getattr(bad[0], 'dst', None) or bad[0].val)))
