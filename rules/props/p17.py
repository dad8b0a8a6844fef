"""Destruction of a mock as an ordered list of effects on the mock's parts: the method
table of the object is put back first, then records and private table go, then the
owned object; who owns the object is read off the two constructions."""
from table import *

TECHNIQUE = 'effect analysis of the compiler IR: order of the restoring write, the destructors of the records and the release of the owned object on every path of the destructor; ownership read off the constructions'
NOTE = 'both kinds of mock, with and without a virtual destructor in the mocked class; std::shared_ptr and std::vector are trusted to destroy what they hold; exceptions thrown by destructors of recorded values are not followed'


def check(ctx):
    u = unit(ctx)
    ctx.rule('R1', 'destroying a mock puts the table found at construction back into the object on every path')
    ctx.rule('R2', 'nothing the mock recorded, and not the private table, is released before the table is back')
    ctx.rule('R3', 'the owned object is released once, after the records')
    ctx.rule('R4', 'a mock made for an existing object owns no object, a mock that makes its object owns exactly that one')
    ctx.rule('R5', 'in a made object the destructor entries lead to a function without effects')
    u.sel = selector(ctx, u)
    for k, cls, made in CLASSES:
        r = roles(ctx, u, k, cls)
        for f in u.get('dt', 1, r'^fakeit::Mock<%s>::~' % cls):
            if 'vtt' in [p['nm'] for p in f.params]:
                continue
            destroy(ctx, u, r, f)
        owner(ctx, u, r)
    unmocked(ctx, u)
    for x, n in (('R1', 2), ('R2', 4), ('R3', 2), ('R4', 4), ('R5', 1)):
        ctx.need(x, n)


def destroy(ctx, u, r, f):
    t = Tab(f, u)
    this = S('arg', 0, 'this')
    obj = S('ld', fz(this.add(K(r.inst))))
    old = S('ld', fz(this.add(K(r.saved))))
    w = [e for e in t.of('store') if e.addr == obj]
    name = f.short()
    if not w:
        ctx.fail('R1', name, '%s: the object keeps the private table' % f.where())
        return
    bad = [e for e in w if e.val != old]
    if bad:
        ctx.fail('R1', name, '%s: the object gets %s instead of the table it had' % (f.where(bad[0].iid), show(bad[0].val)))
        return
    first = w[0]
    if not t.always(first):
        ctx.fail('R1', name, '%s: the table is put back on some paths only' % f.where(first.iid))
        return
    ctx.ok('R1', name)
    recs = {this.add(K(v)).get(None, 0): v for v in r.vecs}
    n = 0
    last = []
    for e in t.effects:
        what = None
        if e.kind in ('dtor', 'vec', 'own'):
            c = const_of(e.addr.add(this, -1))
            if c is None:
                continue
            if c in r.vecs:
                what = 'recorded values'
                if e.kind == 'dtor':
                    last.append(e)
            elif c == r.own:
                what = 'the owned object'
        elif e.kind == 'delete':
            if e.val == this:
                continue
            what = 'a block'
        elif e.kind == 'call' and mm(e.name, r'::~|^<indirect>'):
            what = e.name
        if what is None:
            continue
        n += 1
        ctx.require('R2', '%s: %s' % (name, f.where(e.iid)), t.before(first, e), '%s: %s released before the object has its table back (%s)' % (f.where(e.iid), what, f.where(first.iid)))
    ctx.anchor(n >= 3, '%s: only %d releases found' % (name, n))
    done = set(const_of(e.addr.add(this, -1)) for e in last)
    ctx.anchor(done == set(r.vecs), '%s: record lists destroyed: %s of %s' % (name, sorted(done), r.vecs))
    rel = [e for e in t.effects if e.kind in ('dtor', 'own') and const_of(e.addr.add(this, -1)) == r.own]
    dels = [e for e in t.of('delete') if not e.array and e.val != this]
    if dels:
        ctx.fail('R3', name, '%s: %s is freed by hand' % (f.where(dels[0].iid), show(dels[0].val)))
        return
    if not rel:
        ctx.fail('R3', name, '%s: the owned object is never released' % f.where())
        return
    early = [(e, x) for e in rel for x in last if not t.before(x, e)]
    ctx.require('R3', name, not early, early and '%s: the owned object is released before the records (%s)' % (f.where(early[0][0].iid), f.where(early[0][1].iid)))


def owner(ctx, u, r):
    at = S('arg', 0, 'at')
    own = fz(at.add(K(r.own)))
    inst = fz(at.add(K(r.inst)))
    e = r.spy.final()
    ctx.require('R4', 'existing %s' % r.cls, e.get(own) == Lin(), '%s: a mock of an existing object owns %s' % (r.spy.fn.where(), show(e.get(own, S('unknown')))))
    dels = [x for x in r.spy.of('delete')]
    ctx.require('R4', 'existing %s, release' % r.cls, not dels, dels and '%s: releases %s' % (r.spy.fn.where(dels[0].iid), show(dels[0].val)))
    t = r.made
    e = t.final()
    o = single(e.get(own, Lin()))
    ctx.require('R4', 'made %s' % r.cls, o is not None and o[0] == 'new', '%s: the mock does not own the object it made: %s' % (t.fn.where(), show(e.get(own, S('unknown')))))
    ctx.require('R4', 'made %s, mocked object' % r.cls, o is not None and e.get(inst) == Lin({o: Fraction(1)}), '%s: the mocked object is %s, the owned one %s' % (t.fn.where(), show(e.get(inst, S('unknown'))), show(o)))
    if r.cls != 'I':
        return
    # destructor entries of the made object's own table
    vals = {}
    for w in t.of('store'):
        if ('dtoroff',) in w.addr and w.addr[('dtoroff',)] == 8:
            rest = Lin(w.addr)
            del rest[('dtoroff',)]
            for s, (b, offs) in objects_of(t).items():
                if s in rest and len(offs) == 1:
                    d = const_of(rest.add(Lin({s: Fraction(1)}), -1))
                    if d is not None:
                        vals.setdefault((s, d - list(offs)[0]), []).append(w)
    fills = [w for w in t.of('fill') if single(w.val) and single(w.val)[0] == 'global']
    ctx.anchor(fills, '%s: set-up of the made object not found' % t.fn.name)
    table = [s for s in fills[0].dst if s and s[0] == 'new'][0]
    d0 = vals.get((table, 0))
    if not d0:
        ctx.fail('R5', 'made I', '%s: the destructor of a made object is %s' % (t.fn.where(fills[0].iid), show(fills[0].val)))
        return
    g = single(d0[-1].val)
    quiet = g and g[0] == 'global' and any(f.name == g[1] and harmless(f) for f in u.get('un', 1))
    ctx.require('R5', 'made I', bool(quiet), '%s: the destructor entry is %s, which does something' % (t.fn.where(d0[-1].iid), show(d0[-1].val)))
    order = t.before(Where(t, fills[0]), d0[-1])
    ctx.require('R5', 'made I, order', order, '%s: the destructor entry is overwritten by the general set-up (%s)' % (t.fn.where(d0[-1].iid), t.fn.where(fills[0].iid)))
    d1 = vals.get((table, 8))
    g = single(d1[-1].val) if d1 else None
    vd = [f for f in u.get('vd', 1) if g and f.name == g[1]]
    ctx.require('R5', 'made I, second entry', bool(vd) and forwards(vd[0], u), '%s: the deleting destructor entry is %s' % (t.fn.where(d1[-1].iid if d1 else fills[0].iid), show(d1[-1].val) if d1 else show(fills[0].val)))


class Where:
    """stands for a loop in order questions"""

    def __init__(self, t, e):
        self.iid = t.anchor_ins(e)


def harmless(f):
    return not any(i['op'] in ('store', 'call', 'invoke', 'atomicrmw') for i in f.ins.values())


def forwards(f, u):
    """calls the destructor entry of its object's table, and nothing else"""
    t = Tab(f, u)
    cs = [i for i in f.ins.values() if 'fp' in i and 'virt' not in i and i['op'] in ('call', 'invoke')]
    if len(cs) != 1:
        return False
    v = single(t.value(cs[0]['fp']))
    want = S('ld', fz(S('arg', 0, 'this'))).add(Lin({('dtoroff',): Fraction(8)}))
    return v == ('ld', fz(want)) and t.value(cs[0]['args'][0]) == S('arg', 0, 'this')


def unmocked(ctx, u):
    for f in u.get('un', 1, 'unmockedDtor'):
        ctx.require('R5', f.short(), harmless(f), '%s: the destructor of a made object that is not mocked does something' % f.where())
