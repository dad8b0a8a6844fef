"""The dispatcher of a stubbed method is run against an automaton that counts
additions of the current call to the history: one before the behaviour when a
stub matched, none otherwise; and every other member of the recorded body is
checked not to add to or reorder the history."""
from common import *
import effects

TECHNIQUE = 'must-pass-through and counting automaton over all dispatcher paths, plus a who-may-mutate rule on the history container'
NOTE = 'all paths of every dispatcher instantiated by the witness; other instantiations of the same templates are assumed alike'

SPEC = BODY_SPEC + ['root members ^(.* )?fakeit::RecordedMethodBody<[^(]*>::[a-zA-Z]+\\(', 'opaque ^fakeit::FakeitContext::(handle|format)\\(']


def check(ctx):
    u = ctx.unit('core.cpp', SPEC)
    ctx.rule('R1', 'matched call: added to the history exactly once, before the behaviour starts; unmatched call: not added')
    ctx.rule('R2', 'the object added is the one the matchers were asked about, built from the call\'s own arguments')
    ctx.rule('R3', 'no other member adds to, removes from or reorders the history, except clearing it as a whole')
    for fn in u.get('dispatch', 4):
        hist, cls = body_roles(ctx, u, fn)
        one(ctx, u, fn, hist)
        for g in u.get('members'):
            if class_of(g) != cls or g.sym == fn.sym or u.only_called_from(g.sym, {fn.sym}):
                continue
            bad = [(k, op) for k, op, p in mutations(g) if this_field(p) == hist and op != 'clear']
            if bad and empties(g, bad[-1][0]):
                bad = []
            ctx.require('R3', g.short(), not bad, 'changes the history by %s at %s' % (bad and bad[0][1], bad and g.where(bad[0][0])))
    ctx.need('R1', 4)
    ctx.need('R3', 8)


def empties(g, k):
    """the list changed by call k is empty when g returns"""
    t = effects.Effects(g)
    c = t.vec(t.final(), t.value(g.ins[k]['args'][0]))
    return c != 'unknown' and c[0] == effects.Lin()


def one(ctx, u, fn, hist):
    beh = fn.calls(BEHAVIOUR)
    mat = fn.calls(MATCHES)
    ctx.anchor(beh and mat, 'dispatcher without behaviour or matcher call: ' + fn.name)
    pushes = {}
    for k, op, p in mutations(fn):
        if this_field(p) == hist:
            pushes[k] = op
    invs = set(fn.arg(k, 1) for k in mat)
    ctx.anchor(len(invs) == 1, 'matchers are asked about different calls')
    inv = invs.pop()

    def pushed_obj(k):
        o = fn.ins[k]['args'][-1]
        p = fn.path(o)
        la = fn.local_addr(o)
        if la:
            return fn.local_source(la[0], la[1], 0) or p
        return p

    def step(st, ev):
        matched, n, started = st
        if ev[0] == 'cond' and ev[1] in mat and not started and n == 0:
            return (ev[2], n, started)
        if ev[0] == 'ins' and ev[1] in pushes:
            op = pushes[ev[1]]
            if op not in VEC_ADD:
                raise Violation('the dispatcher changes the history by %s' % op)
            if started:
                raise Violation('the call is added to the history after its behaviour started')
            if not matched:
                raise Violation('a call that no stub accepted is added to the history')
            if n:
                raise Violation('the call is added to the history twice')
            return (matched, 1, started)
        if ev[0] == 'ins' and ev[1] in beh:
            if n != 1:
                raise Violation('the behaviour starts before the call is in the history')
            return (matched, n, True)
        if ev[0] == 'exit' and matched and n != 1:
            raise Violation('a call accepted by a stub ends without being in the history')
        return st
    ctx.sim('R1', fn, step, (False, 0, False))
    for k in pushes:
        o = pushed_obj(k)
        ctx.require('R2', fn.short(), o == inv, 'the object added to the history is %s, not the current call %s (%s)' % (render(o), render(inv), fn.where(k)))
    # built from the call's own arguments, in order
    params = [k for k, q in enumerate(fn.params) if q['nm'] != 'this' and not q.get('sret')]
    tup = [k for k in fn.calls(r'^std::tuple<.*>::tuple') if base_of(fn.arg(k, 0)) == inv]
    if params:
        ctx.anchor(tup, 'construction of the recorded arguments not found in ' + fn.name)
        for k in tup:
            got = [fn.arg(k, j) for j in range(1, len(fn.ins[k]['args']))]
            want = [('arg', q, fn.params[q]['nm'] or 'arg%d' % q) for q in params]
            ctx.require('R2', fn.short() + ' arguments', got == want, 'the recorded arguments are %s instead of the parameters in order' % [render(x) for x in got])
