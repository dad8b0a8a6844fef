"""The mock's object and its method tables: places, roles and the unit all table properties share."""
from effects import *
from fk import *  # noqa

SPEC = ['root m ^w_[mn]_',
        'over body ^fakeit::MockImpl<.*>::MethodMockingContextBase<.*>::getRecordedMethodBody',
        'over orig ^fakeit::MethodMockingContext<.*>::Context::getOriginalMethod',
        'root px fakeit::MethodProxyCreator<.*>::methodProxyX<[0-9]+>',
        'over ids ^fakeit::InvocationHandlerCollection::getInvocatoinHandlerPtrById',
        'over clear ^fakeit::ActualInvocationsContainer::clear',
        'root dt ^fakeit::(Mock|FakeObject)<.*>::~',
        'root un ^fakeit::MockImpl<.*>::unmocked',
        'root vd ^fakeit::VirtualTable<.*>::dtor',
        'root sel ^fakeit::VirtualOffsetSelector::offset']
CLASSES = [('m', 'I', 'MadeI'), ('n', 'Small', 'MadeSmall')]


def unit(ctx):
    return ctx.unit('mock.cpp', SPEC)


def selector(ctx, u):
    """what each probe method of the offset selector returns, by demangled name"""
    out = {}
    for f in u.get('sel', 100):
        rets = [i for i in f.ins.values() if i['op'] == 'ret' and i.get('args')]
        out[f.name] = rets[0]['args'][0].get('c') if len(rets) == 1 else None
    return out


class Tab(Effects):
    """effects, with the offset probe understood"""

    def __init__(self, fn, u, **kw):
        self.sel = u.sel
        Effects.__init__(self, fn, call=Tab.hook, **kw)

    @staticmethod
    def hook(self, i, n, a, env):
        if not a:
            return None
        if n in self.sel:
            return K(self.sel[n]) if self.sel[n] is not None else S('badoffset', n)
        s = [k for k in a[0] if k and k[0] == 'local']
        if not s:
            return None
        al = self.fn.ins.get(s[0][1])
        if al is None or 'VirtualOffsetSelector' not in (al.get('aty') or ''):
            return None
        if mm(n, r'::~\w+\(\)'):
            self.write(env, Lin({s[0]: Fraction(1)}).add(K(8)), S('dtoroff'))
            return True
        if 'fp' in i:
            v = self.value(i['fp'])
            q = single(v)
            alts = [uz(x) for x in q[2]] if q and q[0] == 'phi' and len(q) > 2 else [v]
            for x in alts:
                y = single(x)
                if y and y[0] == 'ev':
                    return S('off', y[1])
        return None


class Roles:
    """places of the mock's parts as byte offsets from the mock, found in the construction on an existing object"""


def roles(ctx, u, k, cls):
    f = u.one('m', '^w_%s_spy$' % k)
    t = Tab(f, u)
    at, obj = S('arg', 0, 'at'), S('arg', 1, 'i')
    r = Roles()
    r.spy, r.cls = t, cls

    def off(l):
        return const_of(l.add(at, -1))

    def places(test, kinds=('store',)):
        out = []
        for e in t.of(*kinds):
            o = off(e.addr)
            if o is not None and test(e) and o not in out:
                out.append(o)
        return out
    inst = places(lambda e: e.val == obj)
    ctx.anchor(len(inst) == 1, '%s: where the object is kept: %s' % (f.name, inst))
    r.inst = inst[0]
    saved = places(lambda e: e.val == S('ld', fz(obj)))
    ctx.anchor(len(saved) == 1, '%s: where the object\'s table is kept: %s' % (f.name, saved))
    r.saved = saved[0]
    news = {('new', e.iid): e for e in t.of('new') if e.array}
    clone = places(lambda e: any(s in news for s in e.val))
    ctx.anchor(len(clone) == 1, '%s: where the private table is kept: %s' % (f.name, clone))
    r.clone = clone[0]
    own = places(lambda e: True, ('own',))
    ctx.anchor(len(own) == 1, '%s: where the owned object is kept: %s' % (f.name, own))
    r.own = own[0]
    r.vecs = sorted(set(o for o in (off(e.addr) for e in t.of('vec')) if o is not None))
    r.made = Tab(u.one('m', '^w_%s_make$' % k), u)
    vt = u.vtables.get('vtable for ' + [c for c in CLASSES if c[0] == k][0][2])
    ctx.anchor(vt is not None and len(vt) == 1, 'no method table of the concrete class')
    r.n = len(vt[0]) - 2
    recs = [x for v in u.records.get('class.fakeit::Mock', []) for x in v['fields'] if 'MockImpl' in x['type']] or [x for v in u.records.get('class.fakeit::Mock', []) for x in v['fields'] if x['name'] == 'impl']
    offs = set(x['off'] for x in recs)
    ctx.anchor(len(offs) == 1, 'implementation object of a mock: %s' % offs)
    r.impl = offs.pop()
    return r


def objects_of(t):
    """symbols of the table blocks allocated in a construction: {('new',id): (effect, offset of the first method)}"""
    out = {}
    for e in t.of('new'):
        if not e.array:
            continue
        s = ('new', e.iid)
        offs = set()
        for w in t.of('store'):
            if w.val.get(s) == 1:
                c = const_of(w.val.add(Lin({s: Fraction(1)}), -1))
                base = [b for b in w.addr if b is not None and b[0] == 'new']
                if c is not None:
                    offs.add(c)
        out[s] = (e, offs)
    return out


def reach_when(t, val, target, there):
    """instructions reached normally without passing the target when the pointer val is not null (there) or null"""
    fn = t.fn
    seen, work = set(), [fn.entry]
    while work:
        x = work.pop()
        if x in seen or x == target or x in (RET, EXC):
            continue
        seen.add(x)
        i = fn.ins[x]
        for kind, y in fn.succs(x):
            if kind == 'unwind':
                continue
            if i['op'] == 'br' and 'cond' in i:
                c = single(t.value(i['cond']))
                if c and c[0] == 'cmp' and {uz(c[2]) == val, uz(c[3]) == val} == {True, False} and (not uz(c[2]) or not uz(c[3])):
                    null = 'br1' if c[1] == 'ne' else 'br0'
                    if (kind == null) == there and kind in ('br0', 'br1'):
                        continue
            work.append(y)
    return seen
