"""Every integration is lowered with its framework's headers (or a stand-in declaring
the interface used). Each handler must raise a failure on every way to its end; what
the failure carries is followed through strings, streams and the framework's own
objects. The adapter's formatter and the context's choice of formatter are read from
the constructor and the dispatch table."""
import os

from effects import *
from props.p26 import EVENTS, Context, changes, chosen, offset_of
from text import *

TECHNIQUE = 'typestate (every path through a handler raises a failure) with a text-content dataflow from formatter and event to the failure, effect analysis of the constructors, conditional propagation of the chosen formatter; per integration'
NOTE = 'Catch2, doctest, GoogleTest and Boost.Test are analysed with their installed headers; CUTE, mettle, MSTest, NUnit and Qt Test with stand-ins for the interface used; which functions of a framework fail the test is a table in the check'

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'witness', 'stubs')
CONFIGS = {
    'boost': [], 'catch': [], 'cute': [], 'doctest': ['-I/usr/include/doctest'], 'gtest': [], 'mettle': ['-include', 'mettle.h'],
    'mstest': [], 'nunit': ['-include', 'nunit.h'], 'qtest': [], 'standalone': [], 'tpunit': []}
SPEC = ['root w ^w_', r'root m ^fakeit::[A-Za-z]+(Context|Fakeit)::[A-Za-z_]+(\[abi:cxx11\])?\(', r'root ad ^fakeit::[A-Za-z]+Adapter::handle\(',
        'root init __cxx_global_var_init', r'root what ::what(\[abi:cxx11\])?\(\) const', 'opaque ^fakeit::DefaultEventFormatter::']


def sev(c, name, ok):
    """constants given when the object was made by `name`"""
    l = [q for q in c if q[0] == 'via' and mm(q[1], name)]
    return bool(l) and all(ok(q[2]) for q in l)


# function -> (what must hold of its content for the test to fail, what it is otherwise)
SINKS = [
    (r'testing::internal::AssertHelper::operator=\(', lambda c, k: sev(c, r'AssertHelper::AssertHelper\(', lambda q: q and q[0] in (1, 2)), 'not a failure'),
    (r'Catch::AssertionHandler::handleMessage\(', lambda c, k: k and k[0] & 0x10 and sev(c, r'AssertionHandler::AssertionHandler\(', lambda q: q and q[-1] in (1, 2)), 'only a message'),
    (r'doctest::detail::MessageBuilder::log\(', lambda c, k: sev(c, r'MessageBuilder::MessageBuilder\(', lambda q: q and q[-1] & ~1), 'only a warning'),
    (r'boost::test_tools::tt_detail::report_assertion\(', lambda c, k: sev(c, r'assertion_result::assertion_result\(', lambda q: q == (0,)) and k and k[0] in (1, 2), 'not a failure'),
    (r'CppUnitTestFramework::Assert::Fail\(', lambda c, k: True, ''),
    (r'NUnit::Framework::Assert::Fail\(', lambda c, k: True, ''),
    (r'^QTest::qFail\(', lambda c, k: True, ''),
]


def check(ctx):
    ctx.rule('R1', 'every handler of every integration raises a failure of the test on every path')
    ctx.rule('R2', 'the failure carries the whole text of the adapter\'s formatter for the event')
    ctx.rule('R3', 'the failure of a verification carries the file and line of the event')
    ctx.rule('R4', 'the adapter asks its context for the text, and the context uses the custom formatter when set')
    ctx.rule('R5', 'the context hands events to its own adapter')
    for c, extra in sorted(CONFIGS.items()):
        u = ctx.unit('events.cpp', SPEC, config=c, extra=['-I' + STUBS] + extra)
        integration(ctx, u, c)
    for r, n in (('R1', 33), ('R2', 33), ('R3', 22), ('R4', 77), ('R5', 11)):
        ctx.need(r, n)


def integration(ctx, u, cfg):
    cls = active(ctx, u)
    c = Context(ctx, u, cls)
    reg = {}
    for what in ('adapter', 'formatter'):
        f = u.one('w', '^w_set_%s$' % what)
        o = [const_of(e.addr.add(S('arg', 0, 'c'), -1)) for e in changes(Effects(f)) if e.kind == 'store' and e.val == S('arg', 1, f.params[1]['nm'])]
        ctx.anchor(len(o) == 1 and o[0] is not None, '%s: custom %s not found' % (cfg, what))
        reg[what] = int(o[0])
    ctor = [f for f in u.get('m', 1) if mm(f.name, r'^%s::%s\(\)' % (cls, cls.split('::')[-1]))]
    ctx.anchor(ctor, 'constructor of %s not found' % cls)
    t = Effects(ctor[0])
    this = S('arg', 0, 'this')
    vt = {}
    for x, i in ctor[0].ins.items():
        if i['op'] == 'store':
            m = re.search(r"'vtable for ([\w:]+)'", str(i['args'][0]))
            o = offset_of(ctor[0], i['args'][1], 0)
            if m and o is not None:
                vt[o] = m.group(1)
    # the adapter
    f = next((c.fns[n] for k, n in c.slots.items() if k[0] == 'accessTestingFrameworkAdapter' and n in c.fns), None)
    ctx.anchor(f is not None, '%s: access to the adapter not found' % cls)
    v = c.cond(f, {}).ret
    own = isinstance(v, tuple) and v[0] == 'own' and mm(vt.get(v[1], ''), r'Adapter$')
    ctx.require('R5', cfg, own, '%s: the built-in adapter of the context is %s' % (f.where(), v))
    if not own:
        return
    acls = vt[v[1]]
    hs = {}
    for e in (u.vtables.get('vtable for ' + acls) or [[]])[0]:
        if e and '::handle(' in e:
            hs[Context.key(e)[1]] = e
    fmt = set()
    for e in EVENTS:
        h = [g for g in u.get('ad', 3) if g.name == hs.get(e)]
        ctx.anchor(len(h) == 1, '%s has no handler for %s' % (acls, e))
        fmt |= handler(ctx, u, cfg, h[0], e)
    for o in sorted(fmt):
        w = t.read(t.final(), this.add(K(v[1] + o)))
        k = const_of(w.add(this, -1)) if isinstance(w, Lin) else None
        ctx.require('R4', '%s, formatter of the adapter' % cfg, k is not None and vt.get(int(k)) == cls, '%s: the adapter is given %s instead of its context' % (ctor[0].where(), 'a formatter of its own' if k is not None else show(w)))
    for e in EVENTS:
        f = c.find('format', e)
        calls = [x for x in f.order if f.ins[x]['op'] in ('call', 'invoke') and mm(f.ins[x].get('virt') or cname(f.ins[x]), r'::format(\[abi:cxx11\])?\(')]
        for x in calls:
            i = f.ins[x]
            if Context.key(i.get('virt') or cname(i))[1] != e:
                ctx.fail('R4', '%s, %s' % (cfg, e), '%s: formats another event' % f.where(x))
        sub = Quiet(ctx, cfg)
        chosen(sub, 'R4', c, f, calls, reg, 'formatter', e)


class Quiet:
    """passes results on under the name of the integration"""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg

    def fail(self, rid, inst, msg):
        self.ctx.fail(rid, self.cfg + ', ' + inst, msg)

    def require(self, rid, inst, cond, msg):
        return self.ctx.require(rid, self.cfg + ', ' + inst, cond, msg)


def active(ctx, u):
    """class of the object the integration installs"""
    out = set()
    for f in u.get('init', 1):
        for x, i in f.ins.items():
            if i['op'] == 'store':
                p, q = f.arg(x, 0), f.arg(x, 1)
                if q[0] == 'global' and q[1] == 'Fakeit' and p[0] == 'global':
                    m = re.match(r'^(fakeit::\w+)::', str(p[1]))
                    if m:
                        out.add(m.group(1))
    ctx.anchor(len(out) == 1, 'installed context not found')
    return out.pop()


def handler(ctx, u, cfg, f, e):
    """checks one handler; returns the offsets of the formatter in the adapter"""
    k = f.p('this')
    inst = '%s, %s' % (cfg, e)
    evt = 1 if k == 0 else 0
    pos = {}
    for q in ('file', 'line'):
        g = u.one('w', '^w_get_%s$' % q)
        r = [i for i in g.ins.values() if i['op'] == 'ret'][0]
        l = g.val(r['args'][0])
        ctx.anchor(l is not None and l['op'] == 'load', 'position of an event not found')
        pos[offset_of(g, l['args'][0], 0)] = q
    fmts = set()

    def made(i):
        n = i.get('virt') or cname(i)
        if not mm(n, r'::format(\[abi:cxx11\])?\('):
            return None
        if mm(n, r'^fakeit::DefaultEventFormatter::format(\[abi:cxx11\])?\(') and not i.get('virt'):
            return (('other', 'the default formatter'),)
        r = f.val(i['args'][given(i, 0)])
        o = offset_of(f, r['args'][0], k) if r is not None and r['op'] == 'load' else None
        if o is None:
            return (('other', 'another formatter'),)
        if Context.key(n)[1] != e or f.arg(i['id'], given(i, 1)) != ('arg', evt, f.params[evt]['nm']):
            return (('other', 'the text of another event'),)
        fmts.add(o)
        return (('text',),)

    def source(p):
        if p[0] == '*' and p[1][0] in ('.', 'adj') or p[0] == '*':
            o = event_offset(p[1])
            if o in pos:
                return (pos[o],)
        return None

    def event_offset(p):
        return offs.get(p)
    offs = {}
    for x, i in f.ins.items():
        if i['op'] == 'load':
            o = offset_of(f, i['args'][0], evt)
            if o is not None:
                offs[f.path(i['args'][0])] = o
    T = Text(f, source, made)
    rep = []

    def carried(st, x, i):
        c = ()
        for o in i['args']:
            a = T.place(o)
            w = T.whole(st, a[0]) if a is not None and a[0][0] in ('a', 'x') else ()
            c += w or T.content(st, o)
        return c

    def judge(x, c, what):
        pieces = list(flat(c))
        if ('text',) not in pieces:
            oth = [q[1] for q in pieces if q[0] == 'other']
            rep.append(('R2', 'the failure at %s carries %s' % (f.where(x), oth and oth[0] + ' instead of the text of the active formatter' or 'no text of the formatter')))
        if e != EVENTS[0]:
            for q in ('file', 'line'):
                if (q,) not in pieces:
                    rep.append(('R3', 'the failure at %s does not carry the %s of the statement' % (f.where(x), q)))

    def step(S, ev):
        ph, fz_ = S
        if ev[0] == 'ins':
            i = f.ins[ev[1]]
            st = thaw(fz_)
            if i['op'] in ('call', 'invoke'):
                n = cname(i)
                if mm(n, '^__cxa_throw'):
                    a = T.place(i['args'][0])
                    judge(ev[1], what_text(ctx, u, f, i, st, T, a), 'throw')
                    return ('thrown', fz_)
                for rx, ok, why in SINKS:
                    if mm(n, rx):
                        c = carried(st, ev[1], i)
                        kk = tuple(o['c'] for o in i['args'] if 'c' in o)
                        if not ok(c, kk):
                            raise Violation('the report at %s is %s' % (f.where(ev[1]), why))
                        judge(ev[1], c, n)
                        return ('failed', fz_)
                if i['op'] == 'call':
                    return (ph, freeze(T.step(st, ev[1])))
                return S
            if i['op'] == 'store':
                return (ph, freeze(T.step(st, ev[1])))
            return S
        if ev[0] == 'edge' and ev[2] == 'normal':
            if ph in ('failed', 'thrown'):
                return S
            return (ph, freeze(T.step(thaw(fz_), ev[1])))
        if ev[0] == 'edge' and ev[2] == 'unwind':
            i = f.ins[ev[1]]
            if ph == 'open' and not mm(cname(i), '^__cxa_throw'):
                return S if catches(f, i) else None
            return S
        if ev[0] == 'exit' and ev[1] == RET and ph != 'failed':
            raise Violation('the event is dropped' if ph == 'open' else 'the failure is caught again')
        return S
    ctx.sim('R1', f, step, ('open', freeze({})), instance=inst)
    for rid in ('R2', 'R3'):
        if rid == 'R3' and e == EVENTS[0]:
            continue
        b = [m for r, m in rep if r == rid]
        ctx.require(rid, inst, not b, b and b[0])
    return fmts


def catches(f, i):
    """does the landing pad of the call catch (and not only clean up)?"""
    if 'unwind' not in i:
        return False
    b = f.blocks[i['unwind']]
    return any(j['op'] == 'landingpad' and j.get('args') for j in b)


def what_text(ctx, u, f, i, st, T, a):
    """content of a thrown object; of the library's own exceptions, what their description gives"""
    t = throw_type(i)
    if a is None:
        return ()
    all_ = T.whole(st, a[0])
    vt = u.vtables.get('vtable for ' + t)
    if vt is None or not t.startswith('fakeit::'):
        return all_
    n = [e for e in vt[0] if e and mm(e, r'::what(\[abi:cxx11\])?\(\) const')]
    g = [w for w in u.fns if w.label == 'what' and n and w.name == n[0]]
    ctx.anchor(len(g) == 1, 'description of %s not found' % t)
    o = described(ctx, g[0])
    # the text must be where the description reads it, position may be anywhere in the object
    there = st.get((a[0], o), ())
    return tuple(q for q in all_ if q not in (('text',),)) + tuple(q for q in there if q == ('text',))


def described(ctx, g):
    """offset of the string a description gives"""
    T = Text(g)
    k = g.p('this')
    outs = set()

    def step(S, ev):
        st = thaw(S)
        if ev[0] == 'ins':
            i = g.ins[ev[1]]
            if i['op'] == 'store' or i['op'] == 'call':
                return freeze(T.step(st, ev[1]))
            if i['op'] == 'ret':
                if i.get('args'):
                    outs.add(T.content(st, i['args'][0]))
                else:
                    outs.add(st.get((('p', [q for q, p in enumerate(g.params) if p.get('sret')][0]), 0)))
        if ev[0] == 'edge' and ev[2] == 'normal':
            return freeze(T.step(st, ev[1]))
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        return S
    Sim(g, step, freeze({})).run()
    ctx.anchor(len(outs) == 1, 'description not understood: ' + g.name)
    c = outs.pop()
    ctx.anchor(c and len(c) == 1 and c[0][0] == 'in' and c[0][1] == k, 'description not understood: %s %s' % (g.name, c))
    return c[0][2]
