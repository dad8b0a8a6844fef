"""Where a new stub is inserted in the stub list and in which order the
dispatcher visits that list are derived as linear forms over the container's
begin and end; the visit must start at the newest element, step by exactly one,
stop only at the first acceptance or past the oldest, and use the accepting
stub's own behaviour."""
from common import *

TECHNIQUE = 'affine position analysis of the stub-list walk and insertion point, first-hit automaton, who-may-mutate rule on the stub list'
NOTE = 'all paths of every dispatcher and adder instantiated by the witness; vector semantics are trusted'

SPEC = [DISPATCH, 'root members ^(.* )?fakeit::RecordedMethodBody<[^(]*>::[a-zA-Z]+\\(', 'over add ^fakeit::MethodMockingContext<.*>::Context::addMethodInvocationHandler',
        'opaque ^fakeit::FakeitContext::(handle|format)\\(']
SIZE = 16  # sizeof(std::shared_ptr<T>)


def check(ctx):
    u = ctx.unit('core.cpp', SPEC)
    ctx.rule('R1', 'adding a stub puts it at one fixed end of the stub list, once, and touches no other stub')
    ctx.rule('R2', 'the dispatcher visits the stubs from the newest to the oldest, each in turn, until one accepts')
    ctx.rule('R3', 'the behaviour run is that of the first stub that accepted')
    ctx.rule('R4', 'nothing else changes the stub list, except clearing it as a whole')
    ends = {}
    for fn in u.get('dispatch', 4):
        cls = class_of(fn)
        mat = fn.calls(MATCHES)
        beh = fn.calls(BEHAVIOUR)
        ctx.anchor(mat and beh, 'dispatcher without behaviour or matcher call')
        # the stub list: the container field the asked matcher comes from
        owners = set()
        for k in mat:
            for l in path_leaves(fn.arg(k, 0)):
                if l[0] == 'field' and is_vec_field(u, cls, l[2]):
                    owners.add(l[2])
        ctx.anchor(len(owners) == 1, 'stub list not found in %s: %s' % (fn.name, sorted(owners)))
        field = owners.pop()
        owner = own_path(fn, field)
        adder = None
        for g in u.get('members'):
            if class_of(g) != cls or g.sym == fn.sym:
                continue
            muts = [(k, op) for k, op, p in mutations(g) if this_field(p) == field]
            adds = [m for m in muts if m[1] in VEC_ADD]
            if not adds:
                bad = [m for m in muts if m[1] != 'clear']
                ctx.require('R4', g.short(), not bad, 'changes the stub list by %s at %s' % (bad and bad[0][1], bad and g.where(bad[0][0])))
                continue
            adder = g
            end = insertion_end(ctx, g, field, muts)
            ends[cls] = end
        ctx.anchor(adder is not None, 'no member adds to the stub list of ' + cls)
        bad = [(k, op) for k, op, p in mutations(fn) if this_field(p) == field]
        ctx.require('R4', fn.short(), not bad, 'dispatching a call changes the stub list by %s at %s' % (bad and bad[0][1], bad and fn.where(bad[0][0])))
        visit(ctx, fn, mat, beh, owner, ends.get(cls))
    ctx.need('R1', 4)
    ctx.need('R2', 4)
    ctx.need('R3', 4)
    # what the stubbing statement hands over reaches exactly one addition
    for fn in u.get('add', 2):
        adds = [(k, op, p) for k, op, p in mutations(fn) if p[0] == '.' and op in VEC_ADD]
        n = len([a for a in adds if mm(a[2][3], r'RecordedMethodBody')])

        def step(st, ev, fn=fn, ids=set(a[0] for a in adds if mm(a[2][3], 'RecordedMethodBody'))):
            if ev[0] == 'ins' and ev[1] in ids:
                if st:
                    raise Violation('one stubbing adds two stubs')
                return 1
            if ev[0] == 'exit' and ev[1] == RET and not st:
                raise Violation('a stubbing can end without adding its stub')
            return st
        ctx.sim('R1', fn, step, 0)


def own_path(fn, field):
    for i in fn.ins.values():
        if i['op'] == 'getelementptr' and i.get('field') == field:
            p = fn.path({'i': i['id']})
            if this_field(p) == field:
                return p
    raise AnchorError('container not found')


def insertion_end(ctx, g, field, muts):
    owner = own_path(g, field)
    end = None
    ids = {}
    for k, op in muts:
        if op in ('push_back', 'emplace_back'):
            ids[k] = 'back'
        elif op in ('insert', 'emplace'):
            pos = position(g, g.ins[k]['args'][1], owner)
            if pos and pos[2] is None and pos[0] == Lin({'E': 1}):
                ids[k] = 'back'
            elif pos and pos[2] is None and pos[0] == Lin({'B': 1}):
                ids[k] = 'front'
            else:
                ctx.fail('R1', g.short(), 'a stub is inserted at neither end of the stub list (%s)' % g.where(k))
                return None
        else:
            ctx.fail('R1', g.short(), 'adding a stub also changes the list by %s (%s)' % (op, g.where(k)))
            return None
    if len(set(ids.values())) != 1:
        ctx.fail('R1', g.short(), 'stubs are inserted at different ends')
        return None
    end = list(ids.values())[0]

    def step(st, ev):
        if ev[0] == 'ins' and ev[1] in ids:
            if st:
                raise Violation('one stubbing adds two stubs')
            return 1
        if ev[0] == 'exit' and ev[1] == RET and not st:
            raise Violation('a stub is not added on some path')
        return st
    ctx.sim('R1', g, step, 0)
    return end


def visit(ctx, fn, mat, beh, owner, end):
    if end is None:
        return
    want = 'backward' if end == 'back' else 'forward'
    eas = []
    for k in mat:
        ea = element_address(fn, fn.ins[k]['args'][0], owner)
        if ea is None:
            raise AnchorError('cannot derive the position of the asked stub in %s' % fn.name)
        o = walk_order(fn, ea, owner, SIZE)
        ctx.require('R2', fn.short() + ' order', o == want, 'stubs are visited %s although new stubs are added at the %s (%s)' % (o, end, fn.where(k)))
        if o != want:
            return
        eas.append(ea)
    # no acceptance means that every stub was asked

    def ended(st, ev):
        if ev[0] == 'cond':
            if ev[1] in mat:
                return 'hit' if ev[2] else ('miss' if st != 'exhausted' else st)
            if st != 'hit' and any(exhausts(fn, ea, owner, SIZE, ev[1], ev[2]) for ea in eas):
                return 'exhausted'
        if ev[0] == 'edge' and ev[2] == 'unwind' and ev[1] in mat:
            return None
        if ev[0] == 'ins' and ev[1] in mat and st == 'exhausted':
            raise Violation('a stub is asked after the visit was complete')
        if ev[0] == 'exit' and st in ('start', 'miss'):
            raise Violation('the visit can stop before a stub accepted and before the oldest stub was asked')
        return st
    ctx.sim('R2', fn, ended, 'start', instance=fn.short() + ' end')
    # the behaviour belongs to the accepting stub, on the first acceptance
    recv = set(fn.arg(k, 0) for k in mat)

    def step(st, ev):
        if ev[0] == 'cond' and ev[1] in mat:
            return 'hit' if ev[2] else 'miss'
        if ev[0] == 'ins':
            if ev[1] in mat and st == 'hit':
                raise Violation('a further stub is asked after one accepted the call')
            if ev[1] in beh and st != 'hit':
                raise Violation('a behaviour is run that did not accept the call')
        return st
    ctx.sim('R3', fn, step, 'start')
    for b in beh:
        be = element_address(fn, fn.ins[b]['args'][0], owner)
        ea = element_address(fn, fn.ins[mat[0]]['args'][0], owner)
        if be is None:
            raise AnchorError('cannot derive the position of the stub run in %s' % fn.name)
        ctx.require('R3', fn.short() + ' same stub', same_pos(fn, be, ea, owner), 'the behaviour run is not that of the stub that accepted (%s)' % fn.where(b))


def same_pos(fn, a, b, owner):
    return norm(fn, lin(fn, a), owner) == norm(fn, lin(fn, b), owner)


def dead_end(fn, b):
    r = fn.reach([fn.first(b)])
    return RET not in r and all(cname(fn.ins[x]) == '__cxa_bad_cast' or fn.ins[x]['op'] in ('unreachable',) for x in r if x not in (EXC, RET) and fn.ins[x]['op'] in ('call', 'invoke', 'unreachable'))
