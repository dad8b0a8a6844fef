"""Every path through the dispatcher of a stubbed method, and through the
default of an unstubbed one, is run against an automaton: a normal return is
only possible with the result of the matched behaviour, and the no-match and
used-up outcomes pass through the report and then the unexpected-call throw."""
from common import *

TECHNIQUE = 'typestate automaton over all paths (normal and exceptional) of the inlined dispatcher graph'
NOTE = 'all paths of every dispatcher instantiated by the witness; other instantiations of the same templates are assumed alike'

REPORT = r'^fakeit::FakeitContext::handle\((fakeit::)?UnexpectedMethodCallEvent'
NOMORE = 'fakeit::NoMoreRecordedActionException'
UNEXP = 'fakeit::UnexpectedMethodCallException'
SPEC = [DISPATCH, 'over action ^fakeit::Action<.*>::invoke', 'root seqctor ^fakeit::ActionSequence<[^(]*>::ActionSequence\\(\\)', 'root mockctor ^fakeit::MockImpl<I>::MockImpl\\(fakeit::FakeitContext&\\)',
        'opaque ^fakeit::FakeitContext::(handle|format)\\(', 'opaque ^fakeit::TupleDispatcher::invoke', 'list']


def is_report(i):
    return mm(cname(i), r'^fakeit::FakeitContext::handle\((const )?(fakeit::)?UnexpectedMethodCallEvent')


def check(ctx):
    u = ctx.unit('core.cpp', SPEC)
    ctx.rule('R1', 'dispatcher of a stubbed method: return only the matched behaviour\'s result; no match or used-up actions => report, then throw; other exceptions of the behaviour pass through')
    ctx.rule('R2', 'only the end marker of an action list signals that the actions are used up, and it always does')
    ctx.rule('R3', 'default of an unstubbed method: report, then throw, never return')
    for fn in u.get('dispatch', 4):
        dispatcher(ctx, fn)
    ctx.need('R1', 4)
    markers = set()
    for fn in u.get('seqctor', 2):
        for k in fn.stores():
            v = fn.arg(k, 0)
            if v[0] == 'gep0' and v[1][0] == 'global' and mm(v[1][1], r'^vtable for fakeit::ActionSequence<.*>::'):
                markers.add(v[1][1][len('vtable for '):])
    ctx.anchor(len(markers) >= 2, 'end marker of the action list not found')
    for fn in u.get('action', 6):
        cls = re.sub(r'^(?:.* )?(fakeit::.*)::invoke\(.*$', r'\1', fn.name)
        throws = [k for k in fn.calls(r'^__cxa_throw$') if throw_type(fn.ins[k]) == NOMORE]
        if cls in markers:
            def step(st, ev, fn=fn, throws=throws):
                if ev[0] == 'ins' and ev[1] in throws:
                    return 'thrown'
                if ev[0] == 'exit' and (ev[1] == RET or st != 'thrown'):
                    raise Violation('the end marker of the action list can finish without signalling that the actions are used up')
                return st
            ctx.sim('R2', fn, step, 'start')
        else:
            ctx.require('R2', fn.short(), not throws, 'an action other than the end marker signals that the actions are used up (%s)' % (throws and fn.where(throws[0])))
    ctx.need('R2', 6)
    # default method of a fake: the function pointer the whole table is filled with
    names = set()
    for fn in u.get('mockctor'):
        for i in fn.ins.values():
            for o in operands(i):
                for g in globals_in(o):
                    if mm(g, r'^fakeit::MockImpl<I>::\w+\(\)$') and '~' not in g:
                        names.add(g)
    ctx.anchor(names, 'default method of a fake not found')
    u2 = ctx.unit('core.cpp', ['root unm%d ^%s$' % (k, re.escape(n)) for k, n in enumerate(sorted(names))] + ['opaque ^fakeit::FakeitContext::(handle|format)\\('])
    reporting = 0
    for k, n in enumerate(sorted(names)):
        fn = u2.one('unm%d' % k)
        if mm(n, 'Dtor'):
            continue

        def step(st, ev, fn=fn):
            if ev[0] == 'ins':
                i = fn.ins[ev[1]]
                if is_report(i):
                    if st != 'start':
                        raise Violation('an unexpected call is reported twice')
                    return 'reported'
                if cname(i) == '__cxa_throw':
                    if throw_type(i) != UNEXP:
                        raise Violation('an unstubbed method throws %s instead of the unexpected-call exception' % throw_type(i))
                    if st != 'reported':
                        raise Violation('an unstubbed method throws without reporting')
                    return 'thrown'
            if ev[0] == 'exit' and ev[1] == RET:
                raise Violation('a call of an unstubbed method can return to the caller')
            if ev[0] == 'exit' and st == 'start':
                raise Violation('a call of an unstubbed method ends without a report')
            return st
        ctx.sim('R3', fn, step, 'start')
        reporting += 1
    ctx.anchor(reporting >= 1, 'default method of a fake not found')


def globals_in(o):
    if isinstance(o, dict):
        if 'g' in o:
            yield o['d']
        for a in o.get('args', []):
            yield from globals_in(a)


def dispatcher(ctx, fn):
    beh = fn.calls(BEHAVIOUR)
    mat = fn.calls(MATCHES)
    ctx.anchor(beh and mat, 'dispatcher without behaviour or matcher call: ' + fn.name)

    def step(st, ev):
        if ev[0] == 'cond':
            if ev[1] in mat:
                if st in ('start', 'nomatch', 'matched'):
                    return 'matched' if ev[2] else 'nomatch'
            t = catch_type(fn, ev[1])
            if t and st == 'threw' and cond_true(fn, ev[1], ev[2]):
                return 'usedup' if t == NOMORE else 'caught'
            return st
        if ev[0] == 'edge':
            if ev[1] in beh:
                return 'answered' if ev[2] == 'normal' else 'threw'
            if ev[2] == 'unwind' and ev[1] in mat:
                return 'matcherthrew'
            return st
        if ev[0] == 'ins':
            i = fn.ins[ev[1]]
            if ev[1] in beh:
                if st == 'answered':
                    raise Violation('the behaviour is started a second time for one call')
                if st in ('nomatch', 'start'):
                    raise Violation('a behaviour is started although no stub accepted the call')
                return st
            if i['op'] in ('call', 'invoke'):
                if is_report(i):
                    if st in ('answered', 'threw', 'caught'):
                        raise Violation('the outcome of a matching stub is turned into an unexpected-call report')
                    if st == 'matched':
                        raise Violation('a call accepted by a stub is reported as unexpected without running the stub')
                    if st in ('reported', 'matcherthrew'):
                        raise Violation('reported twice, or after a matcher threw')
                    return 'reported'
                if cname(i) == '__cxa_throw':
                    if st != 'reported':
                        raise Violation('an exception is thrown in state "%s" without reporting the unexpected call' % st)
                    if throw_type(i) != UNEXP:
                        raise Violation('an unexpected call throws %s' % throw_type(i))
                    return 'thrown'
            if i['op'] == 'ret':
                if st != 'answered':
                    raise Violation('the call returns normally although %s' % {'reported': 'it was reported as unexpected', 'usedup': 'the recorded actions are used up', 'nomatch': 'no stub matched', 'start': 'no stub matched', 'threw': 'the behaviour threw', 'caught': 'the behaviour threw', 'matcherthrew': 'a matcher threw', 'thrown': 'the unexpected-call exception was thrown', 'matched': 'the matched stub was not run'}.get(st, st))
                return st
        if ev[0] == 'exit' and ev[1] == EXC:
            if st in ('nomatch', 'usedup', 'start', 'matched', 'answered', 'caught'):
                if st in ('answered', 'matched'):
                    raise Violation('the result of a matching stub is replaced by an exception')
                raise Violation('the call ends with an exception in state "%s" without a report' % st)
        return st
    ctx.sim('R1', fn, step, 'start')
    # the value returned is the behaviour's
    for k in fn.order:
        i = fn.ins[k]
        if i['op'] == 'ret' and i['args']:
            p = fn.arg(k, 0)
            ctx.require('R1', fn.short() + ' result', p[0] == 'call' and p[1] in beh, 'returns %s instead of the result of the behaviour (%s)' % (render(p), fn.where(k)))
    srets = [k for k, q in enumerate(fn.params) if q.get('sret')]
    for b in beh:
        if srets:
            ctx.require('R1', fn.short() + ' result', fn.arg(b, 0) == ('arg', srets[0], fn.params[srets[0]]['nm'] or 'arg%d' % srets[0]), 'the result of the behaviour is not the result of the call (%s)' % fn.where(b))
