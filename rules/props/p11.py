"""A statement object is run through its whole life: built, evaluated, evaluated
again, converted, destroyed. Tracked fields and the number of reports are followed
through every path; whether an exception is in flight is one more symbol."""
from own import *
from verif import *

TECHNIQUE = 'abstract interpretation of the statement life cycle (tracked fields composed from one evaluation to the next), ownership of the shared statement'
NOTE = 'both kinds of statement, every conversion form, C++11 and C++17 ways to ask for exceptions in flight; exceptions out of memory exhaustion excluded'

CLASSES = [('sequence', SEQ, SEQEXP), ('no-other', NOO, NOOTHER)]


def check(ctx):
    ctx.rule('R1', 'a statement already evaluated does nothing when evaluated again, however the first evaluation ended')
    ctx.rule('R2', 'at the end of the statement: evaluated once with its own handler, but not while an exception is in flight')
    ctx.rule('R3', 'conversion to a truth value yields the outcome and reports nothing')
    ctx.rule('R4', 'copies of a statement share it; it ends with the last copy')
    spec = ['root eval_seq ^%s::VerifyExpectation\\(' % SEQ, 'root eval_noo ^%s::VerifyExpectation\\(' % NOO, 'root ctor_seq ^%s::SequenceVerificationExpectation\\(fakeit::Ver' % SEQ,
            'root ctor_noo ^%s::VerifyNoOtherInvocationsExpectation\\(fakeit::Ver' % NOO, 'root conv ^w_(bool|not)_'] + ANALYSIS + HANDLE_OPAQUE
    u = ctx.unit('verify.cpp', spec)
    ANY = [Region('n = 0', [dict(n=0)]), Region('n = 1', [dict(n=1)]), Region('n > 1', [dict(n=2)], [dict(n=1)])]
    init = {}
    for (kind, cls, rec), s in zip(CLASSES, ('seq', 'noo')):
        cf = u.one('ctor_' + s)
        st = [e for e in Run(ctx, cf, ANY[0], {}, rec).exits if e[0] == RET]
        ctx.anchor(len(st) == 1, 'initial state of a %s statement not found' % kind)
        init[s] = st[0][1]
        fn = u.one('eval_' + s)
        ctx.anchor(found_hooks(fn)[2], 'the recorded calls are not analysed in the %s statement' % kind)
        for r in ANY:
            outs = Run(ctx, fn, r, init[s], rec).exits
            ctx.anchor(any('evaluate' in o[2][0] for o in outs), '%s statement never looks at the calls' % kind)
            for ex, mem, (did, thrown, ret) in outs:
                nrep = len([d for d in did if d[0] == 'report'])
                ctx.require('R1', '%s, %s, one report at most' % (kind, r.name), nrep <= 1, 'one evaluation reports more than once (%s)' % fn.where())
                again = Run(ctx, fn, r, mem, rec).exits
                bad = [o for o in again if o[2][0]]
                ctx.require('R1', '%s, %s, again after %s' % (kind, r.name, 'an exception' if ex == EXC else 'return'), again and not bad,
                            'a second evaluation %s (%s)' % (', '.join(sorted(set(d[0] if isinstance(d, tuple) else d for o in bad for d in o[2][0]))) + 's again', fn.where()))
    # conversions
    n = 0
    for fn in u.get('conv', 6):
        noo = fn.name.endswith('noother')
        rec = NOOTHER if noo else SEQEXP
        neg = fn.name.startswith('w_not')
        exact = fn.name.endswith('term')
        for r, good in zip(ANY, (True, False, False) if noo else (False, True, False) if exact else (False, True, True)):
            outs = Run(ctx, fn, r, init['noo' if noo else 'seq'], rec).exits
            n += 1
            bad = [o for o in outs if any(d[0] == 'report' for d in o[2][0])]
            ctx.require('R3', '%s, %s, silent' % (fn.name[2:], r.name), not bad, 'a conversion reports to the event handler (%s)' % fn.where())
            wrong = [o for o in outs if o[0] == RET and o[2][2] != (good != neg)] + [o for o in outs if o[0] == EXC and o not in bad]
            ctx.require('R3', '%s, %s, outcome' % (fn.name[2:], r.name), outs and not wrong, 'a conversion does not yield the outcome of the verification (%s)' % fn.where())
            # converting again gives the same answer
            for ex, mem, (did, thrown, ret) in outs:
                again = Run(ctx, fn, r, mem, rec).exits if ex == RET else []
                w2 = [o for o in again if o[0] != RET or o[2][2] != (good != neg) or any(d[0] == 'report' for d in o[2][0])]
                ctx.require('R3', '%s, %s, converted again' % (fn.name[2:], r.name), not w2, 'a second conversion does not yield the outcome of the first (%s)' % fn.where())
    # end of the statement
    for std in ('c++17', 'c++11'):
        d = ctx.unit('verify.cpp', ['root end_seq ^%s::~' % SEQ, 'root end_noo ^%s::~' % NOO, 'opaque ::VerifyExpectation\\('], std=std)
        for (kind, cls, rec), s in zip(CLASSES, ('seq', 'noo')):
            fn = d.one('end_' + s)
            ends(ctx, fn, rec, '%s, %s' % (kind, std))
    sh = ctx.unit('verify.cpp', SHARED_SPEC + ['opaque ^fakeit::.*::~(Sequence|VerifyNoOther).*Expectation'])
    for kind, cls, rec in CLASSES:
        shared_handle(ctx, 'R4', sh, cls)
    ctx.need('R1', 6)
    ctx.need('R2', 8)
    ctx.need('R3', 30)
    ctx.need('R4', 6)


def ends(ctx, fn, rec, inst):
    asks = fn.calls(r'uncaught_exception') or fn.calls(r'^fakeit::UncaughtException')

    for flying in (False, True):
        reg = Region('in flight' if flying else 'none in flight', [dict(u=1 if flying else 0)], [dict(u=1)] if flying else [])

        def call(S, i):
            if mm(cname(i), r'uncaught_exception|^fakeit::UncaughtException'):
                return sym('u') if i.get('ty') != 'i1' else ('cmp', 'ne', sym('u'))
            return None

        def step(S, ev):
            if ev[0] == 'ins':
                i = fn.ins[ev[1]]
                if i['op'] in ('call', 'invoke') and mm(cname(i), r'::VerifyExpectation\('):
                    S.user = S.user + (plainly(fn, ev[1]),)
                    if len(S.user) > 1:
                        raise Violation('evaluated twice at the end of the statement')
                elif reports(i):
                    raise Violation('reports directly at the end of the statement')
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return mm(cname(fn.ins[ev[1]]), r'::VerifyExpectation\(') is not None and False
            return True
        a = Aff(fn, step, (), {}, reg, call=call)
        try:
            a.run()
        except Violation as e:
            ctx.fail('R2', '%s, %s' % (inst, reg.name), str(e), getattr(e, 'path', []))
            continue
        ctx.stats['automaton_states'] += a.visited
        outs = [S.user for ex, S in a.exits if ex == RET]
        ctx.anchor(outs, 'end of the statement not reached')
        if flying:
            ctx.require('R2', '%s, %s' % (inst, reg.name), all(not o for o in outs), 'the statement is evaluated although an exception is in flight (%s)' % fn.where())
        else:
            ctx.require('R2', '%s, %s' % (inst, reg.name), all(len(o) == 1 for o in outs), 'a path through the end of the statement does not evaluate it (%s)' % fn.where())
            ctx.require('R2', '%s, own handler' % inst, all(h for o in outs for h in o), 'the statement does not report to its own handler (%s)' % fn.where())


def plainly(fn, k):
    """is the handler given to the evaluation the one stored in the statement?"""
    p = fn.arg(k, 1)
    return bool(fields_in(p)) and this_field(p) is not None or (p[0] == '*' and has_arg(p, 0))
