"""Reset compared with construction: for every part of a mock that stubbing changes, the
abstract content after Reset equals the content after construction."""
from table import *

TECHNIQUE = 'effect analysis of the compiler IR: abstract content of every list, table and data area after Reset compared with the content after construction'
NOTE = 'lists are known by length and common element; tables by the range of bytes copied; the data area by the range set to zero; both kinds of mock and classes with and without data members'


def check(ctx):
    u = unit(ctx)
    ctx.rule('R1', 'after Reset every list of a mock has the length and the elements it has after construction')
    ctx.rule('R2', 'Reset copies every method of the original table over the private table and touches no other entry')
    ctx.rule('R3', 'Reset sets the data area of a made object to what it is after construction, after the stubbed data members were destroyed')
    ctx.rule('R4', 'Reset leaves the object, the saved table and the ownership as they are')
    u.sel = selector(ctx, u)
    for k, cls, made in CLASSES:
        r = roles(ctx, u, k, cls)
        f = u.one('m', '^w_%s_reset$' % k)
        t = Tab(f, u)
        m = S('arg', 0, 'm')
        at = S('arg', 0, 'at')
        fin = t.final()
        for v in r.vecs:
            inst = 'list at byte %d of a mock of %s' % (v, cls)
            for c in (r.spy, r.made):
                a = c.vec(c.final(), at.add(K(v)))
                ctx.anchor(a != 'unknown', 'content of the %s after construction not understood' % inst)
                es = [e for e in t.of('vec', 'fill') if (e.kind == 'vec' and e.addr == m.add(K(v)))]
                b = t.vec(fin, m.add(K(v)))
                where = f.where(es[-1].iid) if es else f.where()
                if b == 'unknown':
                    odd = [e for e in es if e.op not in ('resize', 'push_back', 'emplace_back', 'insert', 'erase', 'pop_back', 'clear', 'assign', 'operator=', 'swap')]
                    ctx.anchor(not odd, '%s: %s not understood' % (where, odd[0].op if odd else ''))
                    if v == r.vecs[0] or True:
                        ctx.fail('R1', inst, '%s: %s' % (where, 'Reset leaves elements of before' if es else 'Reset does not touch it'))
                    break
                same = a[0] == b[0] and (a[1] == b[1] or not const_of(a[0].add(K(0))) and a[0] == Lin())
                if not same:
                    ctx.fail('R1', inst, '%s: after Reset %s elements %s, after construction %s elements %s' % (where, show(b[0]), show(b[1]), show(a[0]), show(a[1])))
                    break
            else:
                ctx.ok('R1', inst)
        table(ctx, r, t, f, m, cls)
        data(ctx, r, t, f, m, cls)
        keep = [e for e in t.effects if e.kind in ('store', 'own', 'dtor') and const_of(e.addr.add(m, -1)) in (r.inst, r.saved, r.clone, r.own)]
        ctx.require('R4', 'mock of ' + cls, not keep, keep and '%s: Reset changes the part at byte %s' % (f.where(keep[0].iid), const_of(keep[0].addr.add(m, -1))))
        obj = [e for e in t.of('store') if e.addr in (S('ld', fz(m.add(K(r.inst)))), S('ld', fz(m.add(K(r.own)))))]
        bad = [e for e in obj if e.val != S('ld', fz(m.add(K(r.clone))))]
        ctx.require('R4', 'object of a mock of ' + cls, not bad, bad and '%s: Reset gives the object the table %s' % (f.where(bad[0].iid), show(bad[0].val)))
    for x, n in (('R1', 6), ('R2', 2), ('R3', 1), ('R4', 4)):
        ctx.need(x, n)


def table(ctx, r, t, f, m, cls):
    clone, saved = S('ld', fz(m.add(K(r.clone)))), S('ld', fz(m.add(K(r.saved))))
    end = clone.add(K(8 * r.n))
    inst = 'private table of a mock of ' + cls
    ws = [e for e in t.of('copy', 'fill', 'loose') if clone_sym(r, m) & set(getattr(e, 'dst', None) or e.addr)]
    cp = [e for e in ws if e.kind == 'copy']
    ok = [e for e in cp if e.dst == clone and e.end == end and e.src == saved and e.stride in (None, 8) and t.always(e)]
    if not ok:
        ctx.anchor(not [e for e in ws if e.kind == 'loose'], '%s: how the table is written is not understood' % f.name)
        ctx.fail('R2', inst, '%s: %s' % (f.where(ws[0].iid) if ws else f.where(), 'the methods are not copied back' if not cp else 'copied is ' + '; '.join('[%s, %s) from %s%s' % (show(e.dst.add(clone, -1)), show(e.end.add(clone, -1)), show(e.src), '' if t.always(e) else ' on some paths') for e in cp)))
        return
    st = [e for e in t.of('store') if clone_sym(r, m) & set(e.addr)]
    late = [e for e in st + [w for w in ws if w not in ok]]
    ctx.require('R2', inst, not late, late and '%s: Reset also writes %s' % (f.where(late[0].iid), show(getattr(late[0], 'addr', None) or late[0].dst)))


def clone_sym(r, m):
    return {('ld', fz(m.add(K(r.clone))))}


def data(ctx, r, t, f, m, cls):
    at = S('arg', 0, 'at')
    obj = r.made.final().get(fz(at.add(K(r.own))), Lin())
    want = []
    for e in r.made.of('fill'):
        d = const_of(e.dst.add(obj, -1))
        if d is not None and const_of(e.end.add(obj, -1)) is not None:
            want.append((d, const_of(e.end.add(obj, -1)), e.val))
    if cls == 'I':
        ctx.anchor(want, 'data area of a made object not found')
    news = [e for e in r.made.of('new') if S('new', e.iid) == obj]
    for e in news:
        size = const_of(e.size)
        if size is not None and size > 8:
            f2 = r.made.fn
            ctx.require('R3', 'extent of the data area of a made ' + cls, any(a <= 8 and b >= size for a, b, v in want), '%s: the object has %d bytes, those that are set are %s' % (f2.where(e.iid), size, '; '.join('[%s, %s)' % w[:2] for w in want) or 'none'))
    own, inst = S('ld', fz(m.add(K(r.own)))), S('ld', fz(m.add(K(r.inst))))
    got = []
    for e in t.of('fill'):
        for o in (own, inst):
            d = const_of(e.dst.add(o, -1))
            if d is not None and const_of(e.end.add(o, -1)) is not None:
                got.append((d, const_of(e.end.add(o, -1)), e.val, e))
    for d, e_, v, e in got:
        if not mentions_owner(e, own) and reached_without(t, e, own):
            ctx.fail('R3', 'data of an object spied on, ' + cls, '%s: Reset overwrites bytes [%s, %s) of an object the mock did not make' % (f.where(e.iid), d, e_))
            break
    else:
        ctx.ok('R3', 'data of an object spied on, ' + cls)
    for w in want:
        if w[0] == w[1]:
            continue
        name = 'data area of a made ' + cls
        g = [x for x in got if x[:3] == w]
        if not g:
            ctx.fail('R3', name, '%s: bytes [%s, %s) are %s after construction; Reset sets %s' % (f.where(got[0][3].iid) if got else f.where(), w[0], w[1], show(w[2]), '; '.join('[%s, %s)' % x[:2] for x in got) or 'nothing'))
            continue
        e = g[0][3]
        if not when_owner(t, e, own):
            ctx.fail('R3', name, '%s: the data area is not set on every path of a mock that made its object' % f.where(e.iid))
            continue
        mem = [v for v in r.vecs if r.made.vec(r.made.final(), at.add(K(v)))[0] == Lin()]
        cl = [x for v in mem for x in t.of('vec') if x.addr == m.add(K(v))]
        late = [x for x in cl if not t.before(x, e)]
        ctx.require('R3', name, not late, late and '%s: stubbed data members are destroyed (%s) after their bytes are overwritten' % (f.where(e.iid), f.where(late[0].iid)))


def mentions_owner(e, own):
    return single(own) in e.dst


def target_of(t, e):
    return t.fn.first(t.loop_of(e.block)) if t.loop_of(e.block) is not None else e.iid


def when_owner(t, e, own):
    """the effect is reached on every normal path on which the owned object is there"""
    fn = t.fn
    target = target_of(t, e)
    seen = reach_when(t, own, target, True)
    return not any(fn.blocks[b][-1]['op'] == 'ret' and fn.blocks[b][-1]['id'] in seen for b in t.order)


def reached_without(t, e, own):
    return target_of(t, e) in reach_when(t, own, None, False)
