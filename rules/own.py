"""Ownership rules shared by several checks."""
from aff import *
from common import *

SHARED_SPEC = ['root shared ^fakeit::smart_ptr<']


def shared_handle(ctx, rid, u, what, counter=False):
    """the counted handle around `what` frees it exactly when the last copy goes"""
    fns = [f for f in u.get('shared', 1) if f.name.startswith('fakeit::smart_ptr<%s>::' % what)]
    ctx.anchor(fns, 'handle of %s not found' % what)
    acc = [f for f in fns if mm(f.name, r'::operator(->|\*)\(\)$')]
    rp = None
    for f in acc[:1]:
        for x, i in f.ins.items():
            if i['op'] == 'ret' and i['args']:
                rp = f.arg(x, 0)
    if not acc:
        # never accessed: the place the constructor puts the object
        for f in fns:
            if mm(f.name, r'::smart_ptr\([^&]+\*\)$'):
                for x in f.stores():
                    if f.arg(x, 0)[:2] == ('arg', 1):
                        rp = ('*', f.arg(x, 1))
    ctx.anchor(rp and rp[0] == '*' and has_arg(rp, 0), 'pointer held by the handle of %s not found' % what)
    data = {k: subst_arg(rp[1], k) for k in (0, 1)}

    def key(p):
        if not isinstance(p, tuple):
            return None
        p = plain(p)
        for k in (0, 1):
            if p == data[k]:
                return ('F', 'data', k)
            if p == ('arg', k) or (p[0] == '.' and p[1] == ('arg', k)):
                return ('F', 'ref', k)
            if p[0] == '*' and (p[1] == ('arg', k) or (p[1][0] == '.' and p[1][1] == ('arg', k))) and p[1] != data[k]:
                return ('F', 'cnt', k)
        if p[0] == 'call' and mm(p[2], r'^operator new'):
            return ('F', 'cnt', 'new')
        return None

    def load(S, i):
        k = key(S.interp.fn.arg(i['id'], 0))
        if k is None or k in S.mem:
            return None
        if k == ('F', 'cnt', 'new'):
            return num(0)
        return sym(k)

    def run(fn):
        def step(S, ev):
            freed = S.user
            if ev[0] == 'ins':
                i = fn.ins[ev[1]]
                n = cname(i)
                if i['op'] in ('call', 'invoke'):
                    v = S.arg(i, 0) if i['args'] else None
                    if counter and isinstance(v, Lin) and list(v) in ([('F', 'ref', 0)], [('F', 'ref', 1)]) and mm(n, r'^operator delete'):
                        S.user = freed + (list(v)[0],)
                    if isinstance(v, Lin) and set(v) <= {('F', 'data', 0), ('F', 'data', 1)} and v and (mm(n, r'::~') or i.get('virt')) and not mm(n, r'^operator delete'):
                        S.user = freed + (list(v)[0],)
            if ev[0] == 'cond':
                i = fn.ins[ev[1]]
                # the handle is never empty in use: null tests on the data are taken as not null
                if i['op'] == 'icmp' and any('null' in a for a in i['args']) and isinstance(S.val(ev[1]), tuple):
                    v = S.val(ev[1])
                    if v[0] == 'cmp' and v[1] in ('eq', 'ne') and (set(v[2]) & {('F', 'data', 0), ('F', 'data', 1), ('F', 'ref', 0)}) and len(v[2]) == 1:
                        return ev[2] == (v[1] == 'ne')
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return False
            return True
        out = []
        for zero in (True, False):
            reg = Region('last' if zero else 'shared', [{('F', 'cnt', 0): 1 if zero else 2, ('F', 'cnt', 1): 1}], [{('F', 'cnt', 1): 1}] + ([] if zero else [{('F', 'cnt', 0): 1}]))
            a = Aff(fn, step, (), {}, reg, load=load, memkey=key)
            a.run()
            ctx.stats['automaton_states'] += a.visited
            out.append([S for ex, S in a.exits if ex == RET])
        return out

    C0, C1, D0, D1, R0, R1 = [('F', a, b) for a, b in (('cnt', 0), ('cnt', 1), ('data', 0), ('data', 1), ('ref', 0), ('ref', 1))]
    n = 0
    for fn in fns:
        nm = fn.name[len('fakeit::smart_ptr<%s>::' % what):]
        inst = '%s, %s' % (what, nm.split('(')[0])
        if nm.startswith('~'):
            last, shared = run(fn)
            n += 1
            ctx.require(rid, inst + ' of the last copy', last and all(sorted(S.user) == ([D0, R0] if counter else [D0]) for S in last), 'the last copy does not free what it holds exactly once (%s)' % fn.where())
            ctx.require(rid, inst + ' of another copy', shared and all(S.user == () and fz(S.mem.get(C0, sym(C0))) == fz(sym(C0).add(num(-1))) for S in shared), 'a copy that is not the last frees or forgets to count down (%s)' % fn.where())
        elif mm(nm, r'^smart_ptr\(fakeit::smart_ptr<.* const&\)'):
            n += 1
            for outs in run(fn):
                good = outs and all(fz(S.mem.get(D0, Lin())) == fz(sym(D1)) and fz(S.mem.get(R0, Lin())) == fz(sym(R1)) and fz(S.mem.get(C1, Lin())) == fz(sym(C1).add(num(1))) and not S.user for S in outs)
                ctx.require(rid, inst + ' (copy)', good, 'a copy does not share the object and its count (%s)' % fn.where())
        elif mm(nm, r'^smart_ptr\(.+\*\)'):
            n += 1
            for outs in run(fn):
                good = outs and all(const(S.mem.get(('F', 'cnt', 'new'), Lin())) == 1 and [plain(x) for x in S.mem.get(D0, Lin())] == [('arg', 1)] for S in outs)
                ctx.require(rid, inst + ' (new)', good, 'a new handle does not start with one reference to its object (%s)' % fn.where())
        elif nm.startswith('operator=('):
            n += 1
            for last, outs in zip((True, False), run(fn)):
                free = sorted([D0, R0] if counter else [D0]) if last else []
                moved = [S for S in outs if S.mem.get(D0) is not None]
                good = moved and all(sorted(S.user) == free and fz(S.mem.get(D0, Lin())) == fz(sym(D1)) and fz(S.mem.get(R0, Lin())) == fz(sym(R1)) and fz(S.mem.get(C1, Lin())) == fz(sym(C1).add(num(1))) and (last or fz(S.mem.get(C0, Lin())) == fz(sym(C0).add(num(-1)))) for S in moved)
                ctx.require(rid, inst + (' over the last copy' if last else ' over another copy'), good, 'assignment does not give up the old object and share the new one (%s)' % fn.where())
                idle = [S for S in outs if S.mem.get(D0) is None]
                ctx.require(rid, inst + ' to itself', all(not S.user and S.mem.get(C0) is None for S in idle), 'assignment to itself frees the object (%s)' % fn.where())
    ctx.anchor(n >= 3, 'handle of %s: operations not found' % what)


def plain(p):
    """without parameter names"""
    if isinstance(p, tuple):
        if p and p[0] == 'arg':
            return ('arg', p[1])
        return tuple(plain(x) for x in p)
    return p


def has_arg(p, k):
    if isinstance(p, tuple):
        return (bool(p) and p[0] == 'arg' and p[1] == k) or any(has_arg(x, k) for x in p)
    return False


def subst_arg(p, k):
    if isinstance(p, tuple):
        if p and p[0] == 'arg':
            return ('arg', k)
        return tuple(subst_arg(x, k) for x in p)
    return p
