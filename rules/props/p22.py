"""P22: the replacement method table is sized, laid out and released consistently."""
from table import *

TECHNIQUE = 'effect analysis of the compiler IR: table blocks as byte-exact linear forms, loops summarised by trip count, compared with the method table the compiler emits for the class'
NOTE = 'Constructions, Reset, stubbing, dispatch and destruction are lowered for a class with a destructor, data members and seven table entries and for a small class with two; every write into and release of a table block is compared with its allocation. Classes with several base classes are represented by their primary table only.'


def check(ctx):
    u = unit(ctx)
    ctx.rule('R1', 'a table block has room for its bookkeeping entries and for every method of the class')
    ctx.rule('R2', 'the entry before the first method is the type information of the class and the one before it stays zero')
    ctx.rule('R3', 'each bookkeeping entry lies inside the block, has its own slot, and is read from the slot it was written to')
    ctx.rule('R4', 'the private table gets every method of the original table, the table of a made object a handler for every method')
    ctx.rule('R5', 'the block released is the block allocated, once')
    ctx.rule('R6', 'every table access of dispatch, stubbing and restoring is at a method of the class or at a bookkeeping entry')
    ctx.rule('R7', 'the position probe returns, for each table slot, the number of that slot')
    u.sel = selector(ctx, u)
    probe_rule(ctx, u, 'R7')
    cookies = {}
    for k, cls, made in CLASSES:
        r = roles(ctx, u, k, cls)
        for name, t in (('construction on an existing object', r.spy), ('construction of a new object', r.made)):
            blocks = objects_of(t)
            ctx.anchor(blocks, '%s: no table block allocated' % t.fn.name)
            for s, (e, offs) in blocks.items():
                block(ctx, u, r, t, name, s, e, offs, cookies)
        release(ctx, u, r, cls)
    readers(ctx, u, cookies)
    accesses(ctx, u, cookies)
    ctx.need('R1', 6)
    ctx.need('R3', 6)
    ctx.need('R5', 4)


def probe_rule(ctx, u, rid):
    vt = u.vtables.get('vtable for fakeit::VirtualOffsetSelector')
    ctx.anchor(vt and len(vt) == 1, 'table of the position probe not found')
    es = vt[0][2:]
    ctx.anchor(len(es) > 100, 'only %d probe methods' % len(es))
    fns = {f.name: f for f in u.get('sel', 100)}
    for n, e in enumerate(es):
        f = fns.get(e)
        if f is None:
            ctx.anchor(False, 'probe entry %s not analysed' % e)
        t = Effects(f)
        st = [x for x in t.of('store')]
        got = u.sel.get(e)
        kept = [const_of(x.val) for x in st if const_of(x.addr.add(S('arg', 0, 'this'), -1)) is not None]
        if got != n or kept != [n]:
            ctx.fail(rid, e, '%s: slot %d of the probe returns %s and notes %s' % (f.where(), n, got, [str(x) for x in kept]))
        else:
            ctx.ok(rid, e)


def block(ctx, u, r, t, name, s, e, offs, cookies):
    fn = t.fn
    where = fn.where(e.iid)
    base = Lin({s: Fraction(1)})
    inst = '%s of %s, block at %s' % (name, r.cls, where)
    if not offs:
        ctx.anchor(False, '%s: the block is not used as a table' % inst)
    if len(offs) != 1:
        ctx.fail('R1', inst, '%s: the block is used as a table from different positions: %s' % (where, sorted(offs)))
        return
    k = offs.pop()
    size = e.size
    need = K(k).add(K(8 * r.n))
    c = const_of(size.add(need, -1))
    if c is None:
        ctx.anchor(False, '%s: size of the block not understood: %s' % (inst, show(size)))
    ctx.require('R1', inst, c >= 0, '%s: %s bytes are allocated, %d entries before and %d methods need %d' % (where, show(size), k // 8, r.n, k + 8 * r.n))
    first = base.add(K(k))
    # constant slots
    slots = {}
    for w in t.of('store'):
        if s not in w.addr:
            continue
        d = w.addr.add(first, -1)
        c = const_of(d)
        if c is None:
            continue
        slots.setdefault(c, []).append(w)
    last = {c: ws[-1] for c, ws in slots.items()}
    ti = last.get(-8)
    ctx.require('R2', inst, ti is not None and ti.val == S('global', 'typeinfo for ' + r.cls), '%s: the entry before the first method is %s, not the type information of %s' % (fn.where(ti.iid if ti else e.iid), show(ti.val) if ti else 'never set', r.cls))
    zero = [w for w in t.of('fill') if s in w.dst and (w.stride is None or w.stride == 8 and const_of(w.val) == 0)]
    top = last.get(-16)
    if top is not None:
        ctx.fail('R2', inst + ', offset entry', '%s: the entry two before the first method is overwritten with %s' % (fn.where(top.iid), show(top.val)))
    else:
        z = [w for w in zero if const_of(w.val) == 0 and const_of(w.dst.add(base, -1)) is not None and const_of(w.dst.add(base, -1)) <= k - 16 and (const_of(w.end.add(first, -1)) or 0) >= -8]
        ctx.require('R2', inst + ', offset entry', bool(z) and all(t.before(z[0], w) for w in last.values()), '%s: the entry two before the first method is not zero' % where)
        for w in zero:
            if w not in z[:1]:
                for x in list(last.values()):
                    if not t.before(w, x):
                        ctx.fail('R3', inst, '%s: the block is overwritten after %s' % (fn.where(w.iid), fn.where(x.iid)))
    for c, w in last.items():
        if c in (-8, -16):
            continue
        i2 = '%s, entry %d' % (inst, c // 8)
        if c < -k or c >= 8 * r.n:
            ctx.fail('R3', i2, '%s: entry %d lies outside the block (%d entries before, %d methods)' % (fn.where(w.iid), c // 8, k // 8, r.n))
            continue
        if c >= 0:
            ctx.fail('R3', i2, '%s: bookkeeping is written over method %d' % (fn.where(w.iid), c // 8))
            continue
        kinds = set(kind(t, r, x.val) for x in slots[c])
        if len(kinds) != 1 or None in kinds:
            ctx.fail('R3', i2, '%s: entry %d is used for different things: %s' % (fn.where(w.iid), c // 8, ', '.join(show(x.val) for x in slots[c])))
            continue
        q = kinds.pop()
        if cookies.setdefault(q, c) != c:
            ctx.fail('R3', i2, '%s: %s is written to entry %d, elsewhere to %d' % (fn.where(w.iid), q, c // 8, cookies[q] // 8))
        else:
            ctx.ok('R3', i2)
    clash = [q for q in cookies if list(cookies.values()).count(cookies[q]) > 1]
    if clash:
        ctx.fail('R3', inst, '%s: %s share entry %d' % (where, ' and '.join(clash), cookies[clash[0]] // 8))
    # contents
    isclone = any(const_of(w.addr.add(S('arg', 0, 'at'), -1)) == r.clone and w.val == first for w in t.of('store'))
    end = first.add(K(8 * r.n))
    if isclone:
        src = t.read(t.final(), S('arg', 0, 'at').add(K(r.saved)))
        got = [w for w in t.of('copy') if s in w.dst]
        ok = [w for w in got if w.dst == first and w.end == end and w.src == src and w.stride in (None, 8) and t.always(w)]
        if not ok and pieces(t, [w for w in got if t.always(w)], first, end, src):
            ok = got
        ctx.require('R4', inst, bool(ok), '%s: the methods of the original table are copied %s' % (fn.where(got[0].iid) if got else where, '; '.join('[%s, %s) from %s' % (show(w.dst.add(first, -1)), show(w.end.add(first, -1)), show(w.src.add(src, -1))) for w in got) or 'nowhere'))
    else:
        got = [w for w in t.of('fill') if s in w.dst and w.stride is not None or s in getattr(w, 'dst', {}) and single(w.val)]
        got = [w for w in got if single(w.val) and single(w.val)[0] == 'global']
        ok = [w for w in got if w.dst == first and w.end == end and w.stride in (None, 8) and t.always(w)]
        ctx.require('R4', inst, bool(ok), '%s: the methods of the made object are set up %s' % (fn.where(got[0].iid) if got else where, '; '.join('[%s, %s)' % (show(w.dst.add(first, -1)), show(w.end.add(first, -1))) for w in got) or 'nowhere'))


def pieces(t, got, first, end, src):
    """adjacent copies that together cover the range"""
    at = Lin(first)
    left = list(got)
    while left:
        nx = [w for w in left if w.dst == at and w.src == src.add(at).add(first, -1)]
        if not nx:
            break
        at = nx[0].end
        left.remove(nx[0])
    return at == end


def kind(t, r, v):
    """what a bookkeeping value is: the handlers of the mock or the mock itself"""
    c = const_of(v.add(S('arg', 0, 'at'), -1))
    if c is None:
        return None
    if c == r.impl:
        return 'the mock'
    env = t.final()
    vt = single(env.get(fz(v), Lin()))
    if vt and vt[0] == 'gep':
        g = single(uz(vt[1]))
        if g and g[0] == 'global' and g[1].startswith('vtable for '):
            return g[1][len('vtable for '):]
    return None


def release(ctx, u, r, cls):
    # from what offset the blocks are used
    ks = set()
    for t in (r.spy, r.made):
        for s, (e, offs) in objects_of(t).items():
            ks |= offs
    if len(ks) != 1:
        ctx.fail('R5', 'tables of ' + cls, 'tables start at different positions of their blocks: %s' % sorted(ks))
        return
    k = ks.pop()
    for what, rx, off in (('private table', r'^fakeit::Mock<%s>::~' % cls, r.clone), ('table of a made object', r'^fakeit::FakeObject<%s>::~' % cls, 0)):
        for f in u.get('dt', 1, rx):
            t = Tab(f, u)
            inst = '%s released by %s' % (what, f.short())
            dels = [e for e in t.of('delete') if e.array]
            want = S('ld', fz(S('arg', 0, 'this').add(K(off)))).add(K(-k))
            bad = [e for e in dels if e.val != want]
            for e in bad:
                ctx.fail('R5', inst, '%s: releases %s, allocated was %s' % (f.where(e.iid), show(e.val), show(want)))
            if bad:
                continue
            single_ = [e for e in t.of('delete') if not e.array and e.val.add(want, -1).get(None) is not None and const_of(e.val.add(want, -1)) is not None]
            for e in single_:
                ctx.fail('R5', inst, '%s: an array block is released as a single object' % f.where(e.iid))
            if single_:
                continue
            ctx.require('R5', inst, len(dels) == 1 and t.always(dels[0]) and t.loop_of(dels[0].block) is None, '%s: the %s is released %s' % (f.where(dels[0].iid) if dels else f.where(), what, 'never' if not dels else 'not exactly once on every path'))


def readers(ctx, u, cookies):
    ctx.anchor(cookies, 'no bookkeeping entries')
    for label, q in (('px', 'fakeit::InvocationHandlers'), ('un', 'the mock')):
        n = 0
        for f in u.get(label, 1):
            t = Tab(f, u)
            for x in f.order:
                i = f.ins[x]
                if i['op'] != 'load':
                    continue
                a = t.value(i['args'][0])
                c = const_of(a.add(S('ld', fz(S('arg', 0, 'this'))), -1))
                if c is None or c >= 0:
                    continue
                n += 1
                ctx.require('R3', '%s reads its bookkeeping' % f.short(), cookies.get(q) == c, '%s: reads entry %d, %s is at entry %s' % (f.where(x), c // 8, q, cookies.get(q, 0) // 8 if q in cookies else '-'))
        ctx.anchor(n, 'no reader of the bookkeeping in %s' % label)


def accesses(ctx, u, cookies):
    """variable slots: a method position without displacement, or the second destructor entry"""
    n = 0
    for label in ('m', 'body', 'orig', 'orig/closure', 'px', 'vd'):
        for f in u.get(label, 1):
            t = Tab(f, u)
            for x in f.order:
                i = f.ins[x]
                if i['op'] not in ('load', 'store'):
                    continue
                a = t.value(i['args'][0 if i['op'] == 'load' else 1])
                for s in ('off', 'dtoroff'):
                    for q in [q for q in a if q and q[0] == s]:
                        rest = Lin(a)
                        del rest[q]
                        b = [z for z in rest if z is not None]
                        # table pointers only; record lists are indexed with other factors
                        if a[q] != 8 or len(b) != 1 or b[0][0] not in ('ld', 'new', 'join', 'phi'):
                            continue
                        c = rest.get(None, Fraction(0))
                        if b[0][0] == 'new':
                            offs = objects_of(t).get(b[0], (None, {0}))[1]
                            c -= list(offs)[0]
                        n += 1
                        ok = c == 0 or (c == 8 and s == 'dtoroff')
                        ctx.require('R6', '%s at %s' % (f.short(), f.where(x)), ok, '%s: accesses the entry %d after the method\'s position' % (f.where(x), c // 8))
    ctx.anchor(n >= 10, 'only %d accesses at method positions' % n)
