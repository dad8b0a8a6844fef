"""Every way of asking for a count is composed with the decision taken at the end
of the verification: the request leaves affine values in the statement's fields,
the decision compares affine combinations of them with the number of matches,
and the outcome is looked up for every ordering of the number asked for (k) and
the number found (n)."""
from aff import *
from common import *

TECHNIQUE = 'abstract interpretation (affine values over polyhedral regions of asked and found counts) of request and decision, composed'
NOTE = 'all integers k and n with n not negative, machine overflow excluded; every request form of the public interface'

SPEC = ['root count ^w_count_', 'root decide ' + EVALUATE, 'root ctor ^fakeit::SequenceVerificationExpectation::SequenceVerificationExpectation\\(fakeit', 'root times ^fakeit::operator\\*\\(',
        'opaque ^fakeit::MatchAnalysis::', 'opaque ^fakeit::smart_ptr<.*>::(~?smart_ptr|operator=)', 'opaque ^.*fakeit::to_string', 'opaque ^fakeit::RepeatedSequence::RepeatedSequence', 'opaque ^fakeit::.*Event::']


def R(name, corners, rays=()):
    return Region(name, corners, rays)


# regions of (k, n)
K0 = [R('k = 0, n = 0', [dict(k=0, n=0)]), R('k = 0, n > 0', [dict(k=0, n=1)], [dict(n=1)])]
KP = [R('k > 0, n < k', [dict(k=1, n=0)], [dict(k=1), dict(k=1, n=1)]), R('k > 0, n = k', [dict(k=1, n=1)], [dict(k=1, n=1)]), R('k > 0, n > k', [dict(k=1, n=2)], [dict(n=1), dict(k=1, n=1)])]
KN = R('k < 0', [dict(k=-1, n=0)], [dict(k=-1), dict(n=1)])


def at(k):
    out = []
    if k > 0:
        out.append(R('k = %d, n < k' % k, [dict(k=k, n=0), dict(k=k, n=k - 1)]))
    out.append(R('k = %d, n = k' % k, [dict(k=k, n=k)]))
    out.append(R('k = %d, n > k' % k, [dict(k=k, n=k + 1)], [dict(n=1)]))
    return out


# request -> (kind, fixed number or None)
REQ = {'Exactly': ('eq', None), 'ExactlyQ': ('eq', None), 'AtLeast': ('ge', None), 'AtLeastQ': ('ge', None), 'Never': ('eq', 0), 'Once': ('eq', 1), 'Twice': ('eq', 2),
       'AtLeastOnce': ('ge', 1), 'Any': ('any', 0), 'ExactlyTimes': ('eq', 3), 'ExactlyTime': ('eq', 1), 'AtLeastTimes': ('ge', 3), 'ExactlyTimesT': ('eq', 3)}


def check(ctx):
    u = ctx.unit('verify.cpp', SPEC)
    ctx.rule('R1', 'request composed with decision: succeeds exactly when the number of matches satisfies the request')
    ctx.rule('R2', 'negative counts and repetitions below one are rejected with invalid_argument, others are not')
    ctx.rule('R3', 'without a request: at least once')
    key = object_fields(SEQEXP)
    decide = u.one('decide')
    init = post(ctx, u.one('ctor'), KP[0], {}, key)
    ctx.anchor(len(init) == 1 and init[0][0] == RET, 'initial state of a verification not found')
    mem0 = init[0][1]
    for r in at(1):
        outcome(ctx, 'R3', 'no request, ' + r.name, decide, r, mem0, key, 'ge')
    for fn in u.get('count', 13):
        nm = fn.name.replace('w_count_', '')
        if nm not in REQ:
            continue
        kind, fixed = REQ[nm]
        regions = at(fixed) if fixed is not None else K0 + KP
        for r in regions:
            outs = post(ctx, fn, r, mem0, key)
            for ex, mem, thrown in outs:
                if ex == EXC and thrown:
                    ctx.fail('R2', '%s, %s' % (nm, r.name), 'a valid count is rejected (%s)' % fn.where())
                elif ex == RET:
                    outcome(ctx, 'R1', '%s, %s' % (nm, r.name), decide, r, mem, key, kind)
        if fixed is None:
            outs = post(ctx, fn, KN, mem0, key)
            bad = [o for o in outs if o[0] == RET or o[2] != 'std::invalid_argument']
            ctx.require('R2', nm + ', k < 0', outs and not bad, 'a negative count is not rejected with invalid_argument (%s)' % fn.where())
    for fn in u.get('times', 2):
        if not mm(fn.name, r'operator\*\((fakeit::Sequence const&, int|int, fakeit::Sequence const&)\)'):
            continue
        kp = [k for k, q in enumerate(fn.params) if q['ty'] == 'i32']
        ctx.anchor(len(kp) == 1, 'number of repetitions not found')
        for lo in (True, False):
            r = R('k <= 0', [dict(k=0, n=0)], [dict(k=-1)]) if lo else R('k >= 1', [dict(k=1, n=0)], [dict(k=1)])
            outs = post(ctx, fn, r, {}, key, {kp[0]: sym('k')})
            if lo:
                ctx.require('R2', 'repetition, k <= 0, ' + fn.short(), outs and all(o[0] == EXC and o[2] == 'std::invalid_argument' for o in outs), 'a repetition below one is accepted (%s)' % fn.where())
            else:
                ctx.require('R2', 'repetition, k >= 1, ' + fn.short(), outs and all(o[0] == RET for o in outs), 'a valid repetition is rejected (%s)' % fn.where())
    ctx.need('R1', 13 * 3)
    ctx.need('R2', 4)


def post(ctx, fn, region, mem0, key, params=None):
    """[(exit, tracked fields, thrown type)] of fn for all numbers in the region"""
    if params is None:
        params = {k: sym('k') for k, q in enumerate(fn.params) if q['ty'] == 'i32'}

    def load(S, i):
        p = fn.arg(i['id'], 0)
        if p[0] == '.' and mm(p[3], 'Quantity') or (p[0] == 'arg' and p[2] == 'q'):
            return sym('k')
        return None

    def step(S, ev):
        if ev[0] == 'ins' and cname(fn.ins[ev[1]]) == '__cxa_throw':
            S.user = throw_type(fn.ins[ev[1]])
        if ev[0] == 'edge' and ev[2] == 'unwind' and cname(fn.ins[ev[1]]) != '__cxa_throw':
            return False
        return True
    a = Aff(fn, step, None, mem0, region, load=load, params=params, memkey=key)
    a.run()
    ctx.stats['automaton_states'] += a.visited
    out = []
    for ex, S in a.exits:
        m = {k: v for k, v in S.mem.items() if isinstance(k, tuple) and k[0] == 'F' and scalar(v)}
        if (ex, m, S.user) not in out:
            out.append((ex, m, S.user))
    return out


def scalar(v):
    return isinstance(v, Lin) and all(k in (None, 'k') for k in v)


def outcome(ctx, rid, inst, fn, region, mem, key, kind):
    objs = analysis_count(fn)
    ctx.anchor(objs or fn.calls(r'^fakeit::MatchAnalysis::'), 'the analysis of the history is not called by the decision')

    def load(S, i):
        la = fn.local_addr(i['args'][0])
        if la and la[0] in objs and la[1] and i.get('ty') == 'i32':
            return sym('n')
        return None

    def call(S, i):
        if i.get('ty') == 'i32' and mm(cname(i), r'^fakeit::MatchAnalysis::'):
            return sym('n')
        return None

    def step(S, ev):
        if ev[0] == 'ins':
            i = fn.ins[ev[1]]
            if i['op'] in ('call', 'invoke'):
                if mm(cname(i), r'fakeit::VerificationEventHandler::handle'):
                    S.user = 'fail'
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return False
        return True
    a = Aff(fn, step, 'ok', mem, region, load=load, call=call, memkey=key)
    a.run()
    ctx.stats['automaton_states'] += a.visited
    got = set(S.user for ex, S in a.exits)
    sg = region.signs(sym('n').add(sym('k'), -1))
    want = {'eq': sg == {0}, 'ge': sg <= {0, 1}, 'any': True}[kind]
    want = 'ok' if want else 'fail'
    ctx.anchor(got, 'no outcome')
    ctx.require(rid, inst, got == {want}, 'the verification %s (%s)' % ({'ok': 'should succeed but fails', 'fail': 'should fail but succeeds'}[want] if len(got) == 1 else 'has more than one outcome', fn.where()))
