"""The containers the check works with are followed symbolically: which of them
holds all calls of the given sources, which exactly the unmarked ones. The check
must fail exactly when the container of unmarked calls is not empty, and the event
must carry the two lists in call order. The restriction to unverified calls must
move exactly the unmarked calls of its inner source."""
from flow import *
from verif import *

TECHNIQUE = 'container-content dataflow (walk summaries) and interval analysis of the decision on the number of unmarked calls'
NOTE = 'any number of sources and calls; standard container semantics trusted'

NOOF = r'^' + NOO + r'::VerifyExpectation'
SPEC = ['root noo ' + NOOF, 'root cmp ' + COMPARE, 'root unv ^fakeit::UnverifiedInvocationsSource::getActualInvocations', 'root mark ^fakeit::Invocation::isVerified',
        'opaque ^std::(stable_)?sort<']


def check(ctx):
    ctx.rule('R1', 'the event lists all calls of the given sources and exactly their unmarked calls, both in call order')
    ctx.rule('R2', 'the check fails exactly when the container of unmarked calls is not empty')
    ctx.rule('R3', 'the restriction to unverified calls passes on exactly the unmarked calls of its inner source')
    ctx.rule('R4', 'neither operation writes the mark')
    u = ctx.unit('verify.cpp', SPEC)
    flag = flag_of(ctx, u)
    mark = marktest(flag)
    fn = u.one('noo')
    comparators(ctx, 'R1', u)
    unv = noother(ctx, fn, mark)
    decision(ctx, fn, unv)
    for f in u.get('unv', 1):
        restriction(ctx, f, mark)
    for f in [fn] + u.get('unv'):
        w = [x for x, i in f.ins.items() if i['op'] == 'store' and f.arg(x, 1)[0] == '.' and (f.arg(x, 1)[3], f.arg(x, 1)[2]) == flag]
        ctx.require('R4', f.short(), not w, 'the mark of a call is written at %s' % (w and f.where(w[0])))
    ctx.need('R1', 1)
    ctx.need('R2', 2)
    ctx.need('R3', 1)


def sources(ctx, fn):
    """container of sources the statement was given"""
    fs = set(p for p, s in vec_owners(fn) if this_field(p) and any(isinstance(w, VecWalk) and w.owner == p for w in walks(fn)))
    ctx.anchor(len(fs) == 1, 'list of sources of the check not found: %s' % [render(p) for p in fs])
    return fs.pop()


def event_lists(ctx, fn):
    """fields of the event that hold lists of calls, in order of declaration"""
    out = {}
    for x, i in fn.ins.items():
        if i['op'] in ('call', 'invoke') and i['args']:
            p = fn.arg(x, 0)
            if p[0] == '.' and mm(p[3], r'Event$') and mm(cname(i), CONT):
                out[p[2]] = p
    return out


def noother(ctx, fn, mark):
    src = sources(ctx, fn)
    ev_ = event_lists(ctx, fn)
    ctx.anchor(len(ev_) == 2, 'lists carried by the event: %s' % sorted(ev_))
    un = set()
    seen = set()

    def at(ev, C):
        if ev[0] == 'ins' and reports(fn.ins[ev[1]]):
            all_ = frozenset([('of', src)])
            unv = frozenset([('unmarked', ('of', src))])
            got = {f: C.get(p, EMPTY) for f, p in ev_.items()}
            for f, c in got.items():
                if not c[1]:
                    raise Violation('a list of the report (%s) is not in call order: %s' % (f, show_atoms(c)))
            w = {f: (unv if mm(f, r'nver') or not any(mm(g, r'nver') for g in got) and c[0] == unv else all_) for f, c in got.items()}
            if unv not in w.values() or all_ not in w.values():
                raise Violation('one of the two lists of the report is missing: %s' % ', '.join(show_atoms(c) for c in got.values()))
            for f, c in got.items():
                if c[0] != w[f]:
                    raise Violation('a list of the report (%s) holds %s instead of %s' % (f, show_atoms(c), show_atoms((w[f], False))))
        for c, (a, o) in C.items():
            if a == frozenset([('unmarked', ('of', src))]):
                un.add(c)
    fl = Flow(fn, mark=mark, at=at)
    fl.run(ctx, 'R1', fn.short())
    return un, fl


def decision(ctx, fn, uf):
    un, fl = uf
    src = sources(ctx, fn)
    ctx.require('R2', 'unmarked calls', un, 'no container ever holds exactly the unmarked calls of the given sources (%s)' % fn.where())
    if not un:
        return
    srcw = [w for w in fl.walks if w.owner == src]
    for name, region in (('none', Region('none', [{'n': 0}])), ('some', Region('some', [{'n': 1}], [{'n': 1}]))):
        def call(S, i):
            if i['args'] and mm(cname(i), CONT):
                p = fn.path(i['args'][0])
                if p in un:
                    if mm(cname(i), r'::size\(\) const$'):
                        return sym('n')
                    if mm(cname(i), r'::empty\(\) const$'):
                        return ('cmp', 'eq', sym('n'))
            return None

        def load(S, i):
            # vectors: end = begin + 8 n
            p = fn.arg(i['id'], 0)
            for c in un:
                if is_begin(('*', p), c):
                    return sym(('begin', c))
                if is_end(('*', p), c):
                    return sym(('begin', c)).add(sym('n').scale(8))
            return None

        def step(S, ev):
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return bool(reports(fn.ins[ev[1]]))
            if any(w.moves(ev) == 'start' for w in srcw):
                S.user = ('evaluated', S.user[1])
            if ev[0] == 'ins':
                i = fn.ins[ev[1]]
                if evaluates(i):
                    S.user = ('evaluated', S.user[1])
                if reports(i):
                    S.user = (S.user[0], True)
            if ev[0] == 'exit' and S.user[0] == 'evaluated':
                if name == 'none' and S.user[1]:
                    raise Violation('the check fails although every call is verified')
                if name == 'some' and not S.user[1]:
                    raise Violation('the check passes although a call is not verified')
            if ev[0] == 'exit' and ev[1] == RET and S.user[0] is None and S.user[1]:
                raise Violation('the check fails without looking at the calls')
            return True
        a = Aff(fn, step, (None, False), {}, region, load=load, call=call, memkey=object_fields(NOOTHER))
        try:
            a.run()
            ctx.ok('R2', '%s: %s unmarked calls' % (fn.short(), name))
        except Violation as e:
            ctx.fail('R2', '%s: %s unmarked calls' % (fn.short(), name), str(e), getattr(e, 'path', []))
        ctx.stats['automaton_states'] += a.visited


def restriction(ctx, f, mark):
    into = ('arg', 1, f.params[1]['nm'])

    def at(ev, C):
        if ev[0] == 'exit' and ev[1] == RET:
            a = C.get(into, EMPTY)[0]
            rest = a - {('in', into)}
            if ('in', into) not in a:
                raise Violation('calls added by other sources are dropped')
            ok = len(rest) == 1 and all(x[0] == 'unmarked' and x[1][0] == 'of1' for x in rest)
            if not ok:
                raise Violation('what is passed on is %s instead of exactly the unmarked calls of the inner source' % show_atoms((rest, False)))
    fl = Flow(f, mark=mark, at=at)
    fl.run(ctx, 'R3', f.short())
