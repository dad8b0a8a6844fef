"""Stubbing a method as a set of effects on the mock: table entry, record and identifier are
all written at the position the probe finds for the method named, once; the generated
entry functions lead back to the record of the same identifier."""
from props.p17 import forwards
from props.p22 import probe_rule
from table import *

TECHNIQUE = 'effect analysis of the compiler IR: where stubbing writes table entry, record and identifier, what the generated entry functions look up, and the search that answers them'
NOTE = 'one instantiation per stubbed method of the witness classes, the position being symbolic; every slot of the position probe; identifiers of stubs in different translation units are outside (they come from __COUNTER__)'
PX = re.compile(r'methodProxyX')


def check(ctx):
    u = unit(ctx)
    ctx.rule('R1', 'stubbing writes the entry of exactly the method named, and its record and identifier at the same position')
    ctx.rule('R2', 'the identifier written is the one the entry function looks up, and different stubs have different identifiers')
    ctx.rule('R3', 'a record is made exactly when the method has none, and the record of that method is what is handed out')
    ctx.rule('R4', 'stubbing changes nothing else')
    ctx.rule('R5', 'the entry function asks the lists of the mock of its object, and the answer is what handles the call')
    ctx.rule('R6', 'the search for an identifier finds its position wherever it is and answers with the record at that position')
    ctx.rule('R7', 'the position probe returns, for each table slot, the number of that slot')
    ctx.rule('R8', 'the object of a mock has the private table of that mock, which no other object shares')
    u.sel = selector(ctx, u)
    ids = {}
    for f in u.get('px', 5):
        ids[f.name] = entry(ctx, u, f)
    probe_rule(ctx, u, 'R7')
    used = {}
    lists = set()
    for k, cls, made in CLASSES:
        r = roles(ctx, u, k, cls)
        private(ctx, r)
        for f in u.get('body', 1, r'^fakeit::MockImpl<%s>::' % cls):
            b = body(ctx, u, r, f, ids, used)
            if b:
                lists.add((cls,) + b)
        at = S('arg', 0, 'at')
        mine = [x for x in lists if x[0] == cls]
        ctx.anchor(len(mine) == 1, 'lists used by stubbing %s: %s' % (cls, mine))
        connect(ctx, u, r, mine[0][1], mine[0][2])
    search(ctx, u)
    for x, n in (('R1', 8), ('R2', 8), ('R3', 8), ('R4', 8), ('R5', 8), ('R6', 1), ('R7', 500), ('R8', 4)):
        ctx.need(x, n)


def entry(ctx, u, f):
    """identifier an entry function looks up"""
    t = Tab(f, u)
    look = [e for e in t.of('call') if mm(e.name, r'getInvocatoinHandlerPtrById')]
    ctx.anchor(len(look) == 1, '%s: %d look-ups' % (f.name, len(look)))
    c = const_of(look[0].args[1])
    this = S('arg', f.p('this'), 'this')
    rec = S('call', look[0].iid, look[0].name)
    hs = [e for e in t.of('call') if mm(e.name, r'::handleMethodInvocation\(')]
    ctx.anchor(hs, '%s: no call of a handler' % f.name)
    k = 1 if f.ins[hs[0].iid].get('sret') else 0
    bad = [h for h in hs if h.args[k] != rec]
    ctx.require('R5', f.short() + ', handler', len(hs) == 1 and not bad, '%s: the call is handled by %s' % (f.where(hs[-1].iid), show(hs[-1].args[k])))
    slot = None
    q = single(look[0].args[0])
    if q and q[0] == 'ld':
        slot = const_of(uz(q[1]).add(S('ld', fz(this)), -1))
    ctx.require('R5', f.short() + ', mock', slot is not None, '%s: the look-up asks %s, which is not kept with the table of the object called' % (f.where(look[0].iid), show(look[0].args[0])))
    f.slot = slot
    return c


def private(ctx, r):
    at = S('arg', 0, 'at')
    for what, t in (('existing', r.spy), ('made', r.made)):
        fin = t.final()
        obj = fin.get(fz(at.add(K(r.inst))))
        clone = fin.get(fz(at.add(K(r.clone))))
        ok = obj is not None and clone is not None and fin.get(fz(obj)) == clone and any(s and s[0] == 'new' for s in clone)
        ctx.require('R8', '%s object of %s' % (what, r.cls), ok, '%s: the object has the table %s, the mock writes %s' % (t.fn.where(), show(fin.get(fz(obj), Lin()) if obj is not None else Lin()), show(clone or Lin())))


def connect(ctx, u, r, recs, nums):
    """the object the entry functions ask holds the lists stubbing writes"""
    at = S('arg', 0, 'at')
    for what, t in (('existing', r.spy), ('made', r.made)):
        fin = t.final()
        clone = fin.get(fz(at.add(K(r.clone))))
        for f in u.get('px', 1):
            if f.slot is None:
                continue
            h = fin.get(fz(clone.add(K(f.slot))))
            inst = '%s on the %s object of a mock of %s' % (f.short(), what, r.cls)
            if h is None or const_of(h.add(at, -1)) is None:
                ctx.fail('R5', inst, '%s: asks the entry %d of the table, where the mock keeps %s' % (f.where(), f.slot // 8, show(h) if h is not None else 'nothing'))
                continue
            held = {}
            for e in t.of('store'):
                d = const_of(e.addr.add(h, -1))
                if d is not None and 0 <= d <= 32:
                    held[d] = e.val
            vals = list(held.values())
            ok = at.add(K(recs)) in vals and at.add(K(nums)) in vals
            ctx.require('R5', inst, ok, '%s: the object asked holds the lists %s, stubbing uses the lists at bytes %s and %s' % (f.where(), ', '.join(show(v) for v in vals), recs, nums))
            r.handler = dict((d, 'recs' if v == at.add(K(recs)) else 'nums' if v == at.add(K(nums)) else None) for d, v in held.items())
            u.handler = r.handler


def body(ctx, u, r, f, ids, used):
    t = Tab(f, u)
    name = f.short()
    this = S('arg', f.p('this'), 'this')
    st = [e for e in t.of('store') if single(e.val) and single(e.val)[0] == 'global' and single(e.val)[1] in ids]
    if not st:
        if all(f.blocks[b][-1]['op'] != 'ret' for b in t.order):
            ctx.ok('R1', name + ' (always rejected)')
            return None
        odd = [e for e in t.of('store') if single(e.val) and single(e.val)[0] == 'global' and PX.search(str(single(e.val)[1]))]
        ctx.anchor(not odd, '%s: entry function %s not analysed' % (name, odd and show(odd[0].val)))
        ctx.fail('R1', name, '%s: stubbing does not change the table' % f.where())
        return None
    dtor = 'Dtor' in f.name
    if len(st) != 1:
        ctx.fail('R1', name, '%s: %d table entries are redirected to the stub' % (f.where(st[1].iid), len(st)))
        return None
    e = st[0]
    # mock: [this + c]; its object: [mock + inst]
    mocks = set()
    walk_lds(e.addr, lambda q: mocks.add(q) if const_of(uz(q[1]).add(this, -1)) is not None else None)
    r.rel = {x: getattr(r, x) - r.impl for x in ('inst', 'clone', 'saved', 'own')}
    pos = [(s, c) for s, c in e.addr.items() if s and s[0] in ('off', 'dtoroff')]
    if len(pos) != 1 or pos[0][1] != 8:
        ctx.fail('R1', name, '%s: the entry written is %s' % (f.where(e.iid), show(e.addr)))
        return None
    p = pos[0][0]
    if dtor != (p[0] == 'dtoroff'):
        ctx.fail('R1', name, '%s: the entry written is at %s' % (f.where(e.iid), show(e.addr)))
        return None
    if p[0] == 'off':
        mp = single(uz(p[1]))
        ok = mp and mp[0] == 'ld' and const_of(uz(mp[1]).add(this, -1)) is not None
        if not ok:
            ctx.fail('R1', name, '%s: the position is that of %s, not of the method named' % (f.where(e.iid), show(uz(p[1]))))
            return None
    at = S(*p)
    mk = [S(*m) for m in mocks]
    tabs = [S('ld', fz(S('ld', fz(m.add(K(r.rel['inst'])))))) for m in mk] + [S('ld', fz(m.add(K(r.rel['clone'])))) for m in mk]
    m = [x for x, tb in zip(mk + mk, tabs) if e.addr == tb.add(at, 8)]
    if not m:
        ctx.fail('R1', name, '%s: the entry written is %s' % (f.where(e.iid), show(e.addr)))
        return None
    m = m[0]
    own = []
    for x in t.of('own'):
        if any(s and s[0] in ('local', 'new') for s in x.addr):
            continue
        own.append(x)
    rec = None
    for x in own:
        v = list_at(x.addr.add(at, -16), m, r)
        if v is not None and rec is None:
            rec = (v, x)
        else:
            ctx.fail('R1', name, '%s: a record is kept at %s' % (f.where(x.iid), show(x.addr)))
            return None
    if rec is None:
        ctx.fail('R1', name, '%s: no record is kept at the position of the method' % f.where(e.iid))
        return None
    num = None
    for x in t.of('store'):
        if x is e or any(s and s[0] in ('local', 'new') for s in x.addr):
            continue
        v = list_at(x.addr.add(at, -4), m, r)
        if v is not None and num is None:
            num = (v, x)
            continue
        if dtor and x.addr == e.addr.add(K(8)):
            g = single(x.val)
            fw = [h for h in u.get('vd', 1) if g and g[0] == 'global' and h.name == g[1]]
            ctx.require('R1', name + ', deleting destructor', bool(fw) and forwards(fw[0], u), '%s: the deleting destructor is %s' % (f.where(x.iid), show(x.val)))
            continue
        ctx.fail('R4', name, '%s: stubbing also writes %s' % (f.where(x.iid), show(x.addr)))
    if num is None:
        ctx.fail('R1', name, '%s: no identifier is written at the position of the method' % f.where(e.iid))
        return None
    ctx.ok('R1', name)
    if dtor:
        second = [x for x in t.of('store') if x.addr == e.addr.add(K(8))]
        ctx.require('R1', name + ', both destructors', bool(second), '%s: the deleting destructor is not redirected' % f.where(e.iid))
    # identifiers
    c, want = const_of(num[1].val), ids[single(e.val)[1]]
    ctx.require('R2', name, c is not None and c == want, '%s: the identifier written is %s, the entry function %s looks up %s' % (f.where(num[1].iid), show(num[1].val), single(e.val)[1], want))
    who = used.setdefault((r.cls, c), name)
    ctx.require('R2', name + ', distinct', who == name, '%s: identifier %s is also used by %s' % (f.where(num[1].iid), c, who))
    # once
    place = rec[1].addr
    there = S('ld', fz(place))
    with_ = reach_when(t, there, None, True)
    for x in (e, rec[1], num[1]):
        ctx.require('R3', '%s, existing record (%s)' % (name, f.where(x.iid)), x.iid not in with_, '%s: done again for a method that is stubbed already' % f.where(x.iid))
    for x in (e, rec[1], num[1]):
        w = reach_when(t, there, x.iid, False)
        rets = [f.blocks[b][-1]['id'] for b in t.order if f.blocks[b][-1]['op'] == 'ret']
        ctx.require('R3', '%s, first stubbing (%s)' % (name, f.where(x.iid)), not any(z in w for z in rets), '%s: skipped on some path of the first stubbing' % f.where(x.iid))
    o = single(rec[1].val)
    ctx.require('R3', name + ', new record', o is not None and o[0] == 'new', '%s: the record kept is %s' % (f.where(rec[1].iid), show(rec[1].val)))
    fin = t.read(t.final(), place)
    for b in t.order:
        z = f.blocks[b][-1]
        if z['op'] != 'ret':
            continue
        for v, i in leaves(t, z['args'][0]):
            ctx.require('R3', name + ', handed out', all(x in (fin, there, rec[1].val) for x in alternatives(v)), '%s: handed out is %s, not the record of the method' % (f.where(i), show(v)))
    # nothing else
    bad = [x for x in t.of('fill', 'copy', 'loose', 'vec', 'delete', 'dtor') if not any(s and s[0] in ('local', 'new') for s in (getattr(x, 'addr', None) or getattr(x, 'dst', None) or x.val))]
    bad = [x for x in bad if not counts(f, x)]
    ctx.require('R4', name, not bad, bad and '%s: stubbing also changes %s' % (f.where(bad[0].iid), show(getattr(bad[0], 'addr', None) or getattr(bad[0], 'dst', None) or bad[0].val)))
    return rec[0], num[0]


def counts(f, x):
    """an atomic addition to a counter of its own?"""
    i = f.ins[x.iid]
    if i['op'] != 'atomicrmw' or i.get('rmw') != 'add':
        return False
    p = single(x.addr)
    return p is not None and p[0] == 'global'


def list_at(l, m, r):
    """byte offset (from the mock) of the list whose data l is"""
    q = single(l)
    if q and q[0] == 'ld':
        c = const_of(uz(q[1]).add(m, -1))
        if c is not None and c + r.impl in r.vecs:
            return c + r.impl
    return None


def alternatives(v):
    q = single(v)
    if q and q[0] in ('phi', 'join') and len(q) > 2:
        return [y for x in q[2] for y in alternatives(uz(x))]
    return [v]


def walk_lds(l, f):
    for s in l:
        if s and s[0] == 'ld':
            f(s)
            walk_lds(uz(s[1]), f)


def leaves(t, o, seen=None):
    """[(value, instruction)] a result stands for, through casts and choices"""
    seen = seen if seen is not None else set()
    i = t.fn.val(o)
    if i is None:
        return [] if o.get('null') else [(t.value(o), None)]
    if i['id'] in seen:
        return []
    seen.add(i['id'])
    if i['op'] == 'phi':
        return [x for y in i['inc'] for x in leaves(t, y['v'], seen)]
    if i['op'] in ('call', 'invoke') and mm(cname(i), '^__dynamic_cast'):
        return [(t.value(i['args'][0]), i['id'])]
    return [(t.value(o), i['id'])]


def search(ctx, u):
    for f in u.get('ids', 1):
        name = f.short()
        t = Effects(f)
        this = S('arg', f.p('this'), 'this')
        ident = S('arg', 1, f.params[1]['nm'])
        by = dict((v, d) for d, v in u.handler.items() if v)
        ctx.anchor('recs' in by and 'nums' in by, 'lists of the search object not found')
        nums = S('ld', fz(this.add(K(by['nums']))))
        recs = S('ld', fz(this.add(K(by['recs']))))
        begin, end, rec0 = S('ld', fz(nums)), S('ld', fz(nums.add(K(8)))), S('ld', fz(recs))
        bad = [e for e in t.effects if e.kind not in ('call', 'new') and not any(s and s[0] in ('local', 'new') for s in (getattr(e, 'addr', None) or getattr(e, 'dst', None) or getattr(e, 'val', Lin())))]
        ctx.require('R6', name + ', effects', not bad, bad and '%s: the search changes %s' % (f.where(bad[0].iid), show(getattr(bad[0], 'addr', Lin()))))
        if algorithm(ctx, f, t, name, begin, end, rec0, ident):
            continue
        ctx.anchor(len(t.loops) == 1, '%s: %d loops' % (name, len(t.loops)))
        h = list(t.loops)[0]
        inside = t.loops[h][0]
        eqs = []
        tests = []
        for b in inside:
            z = f.blocks[b][-1]
            if z['op'] != 'br' or 'cond' not in z:
                continue
            c = single(t.value(z['cond']))
            ctx.anchor(c and c[0] == 'cmp', '%s: %s: condition not understood' % (name, f.where(z['id'])))
            l, rr = uz(c[2]), uz(c[3])
            if ident in (l, rr):
                el = single(rr if l == ident else l)
                eqs.append((b, z, c[1], el))
            else:
                tests.append((b, z, c[1], l, rr))
        ctx.anchor(len(eqs) == 1 and len(tests) <= 2, '%s: comparisons in the search: %d, %d' % (name, len(eqs), len(tests)))
        b, z, pred, el = eqs[0]
        it = Lin({('it', h): Fraction(1)})
        where = f.where(z['id'])
        if not el or el[0] != 'ld' or pred not in ('eq', 'ne'):
            ctx.fail('R6', name + ', comparison', '%s: compares %s %s %s' % (where, show(uz(c[2])), pred, show(ident)))
            continue
        first = uz(el[1]).add(it, -uz(el[1]).get(('it', h), Fraction(0)))
        step = uz(el[1]).get(('it', h), Fraction(0))
        if abs(step) != 4:
            ctx.fail('R6', name + ', comparison', '%s: the search moves by %s bytes' % (where, step))
            continue
        if step > 0:
            ctx.require('R6', name + ', start', first == begin, '%s: the search starts at %s' % (where, show(first.add(begin, -1))))
        else:
            ctx.require('R6', name + ', start', first in (end.add(K(-4)),), '%s: the search starts at %s' % (where, show(first)))
        found = z['succ'][0 if pred == 'eq' else 1]
        other = z['succ'][1 if pred == 'eq' else 0]
        ctx.require('R6', name + ', hit ends the search', found not in inside or leaves_loop(f, inside, h, found), '%s: the search goes on after a hit' % where)
        dom = all(f.must_pass_before(f.blocks[x][-1]['id'], [z['id']]) or x == b for x in inside if h in succ_blocks(f, x))
        ctx.require('R6', name + ', every position compared', dom, '%s: some positions are not compared' % where)
        for tb, tz, tp, l, rr in tests:
            ok = covers(l, rr, tp, it, begin, end, el, tz, inside, f)
            ctx.require('R6', name + ', end', ok, '%s: the search stops by %s %s %s' % (f.where(tz['id']), show(l), tp, show(rr)))
        early = [x for x in inside for y in succ_blocks(f, x) if y not in inside and x != b and x not in [q[0] for q in tests]]
        ctx.require('R6', name + ', other ends', not early, '%s: the search is left elsewhere' % where)
        # the answer
        for v, i in results(ctx, f, t, b, found):
            idx = uz(el[1]).add(begin, -1).scale(Fraction(1, 4))
            want = rec0.add(idx, 16)
            ctx.require('R6', name + ', answer', v == S('ld', fz(want)), '%s: the answer is %s, the position found is %s' % (f.where(i), show(v), show(idx)))


def algorithm(ctx, f, t, name, begin, end, rec0, ident):
    """std::find over the list of identifiers"""
    calls = [e for e in t.of('call') if mm(e.name, r'std::find<')]
    if len(calls) != 1 or t.loops:
        return False
    e = calls[0]
    ctx.require('R6', name + ', range', e.args[0] == begin and e.args[1] == end, '%s: searched is [%s, %s)' % (f.where(e.iid), show(e.args[0]), show(e.args[1])))
    ctx.require('R6', name + ', comparison', t.stored(e.iid, e.args[2]) == ident, '%s: searched for is %s' % (f.where(e.iid), show(e.args[2])))
    hit = S('call', e.iid, e.name)
    want = rec0.add(hit.add(begin, -1).scale(Fraction(1, 4)), 16)
    for b in t.order:
        z = f.blocks[b][-1]
        if z['op'] == 'ret':
            v = t.value(z['args'][0])
            ctx.require('R6', name + ', answer', v == S('ld', fz(want)), '%s: the answer is %s' % (f.where(z['id']), show(v)))
    return True


def succ_blocks(f, b):
    z = f.blocks[b][-1]
    return [f.block_of[y] for k, y in f.succs(z['id']) if y in f.block_of and k != 'unwind']


def leaves_loop(f, inside, h, b):
    """from b the loop head is not reached"""
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == h:
            return False
        work.extend(succ_blocks(f, x))
    return True


def covers(l, r, pred, it, begin, end, el, z, inside, f):
    """the test leaves the loop only when the position is past the end"""
    q = uz(el[1])
    pos = q.add(begin, -1)
    stay_on_true = z['succ'][0] in inside and z['succ'][1] not in inside
    neg = {'ult': 'uge', 'uge': 'ult', 'ne': 'eq', 'eq': 'ne', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
    swap = {'ult': 'ugt', 'ugt': 'ult', 'uge': 'ule', 'ule': 'uge', 'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sge': 'sle', 'sle': 'sge'}
    if not stay_on_true:
        if not (z['succ'][1] in inside and z['succ'][0] not in inside):
            return False
        pred = neg.get(pred)
    size = end.add(begin, -1).scale(Fraction(1, 4))
    forms = ((q, end), (pos.scale(Fraction(1, 4)), size))
    for a, b in forms:
        if (l, r) == (a, b) and pred in ('ult', 'ne', 'slt'):
            return True
        if (r, l) == (a, b) and swap.get(pred) in ('ult', 'ne', 'slt'):
            return True
    return False


def results(ctx, f, t, b, start):
    """[(value, instruction)] returned when the loop is left from block b to block start"""
    out, seen, work = [], set(), [(b, start, ())]
    while work:
        p, x, ch = work.pop()
        if (p, x, ch) in seen:
            continue
        seen.add((p, x, ch))
        for i in f.blocks[x]:
            if i['op'] == 'phi':
                for y in i['inc']:
                    if y['b'] == p:
                        ch = ch + ((i['id'], fz(pick(t.value(y['v']), dict(ch)))),)
        z = f.blocks[x][-1]
        if z['op'] == 'ret':
            out.append((pick(t.value(z['args'][0]), dict(ch)), z['id']))
            continue
        for y in succ_blocks(f, x):
            work.append((x, y, ch))
    return out


def pick(l, ch):
    """the value with the choices made on a path put in"""
    r = Lin()
    for s, c in l.items():
        if s and s[0] == 'phi' and s[1] in ch:
            r = r.add(uz(ch[s[1]]), c)
        elif s and s[0] == 'ld':
            r = r.add(S('ld', fz(pick(uz(s[1]), ch))), c)
        else:
            r = r.add(Lin({s: c}))
    return r
