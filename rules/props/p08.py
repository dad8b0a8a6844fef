"""The sequence number stored in a recorded call must be the result of one atomic
increment of one shared counter made in the dispatcher of that very call, nothing
else may touch the counter or rewrite the number, all comparisons of calls must be
by these numbers, and every list of calls that a verification searches or reports
must be a sorted, complete merge of its sources (container-content dataflow)."""
from flow import *
from verif import *

TECHNIQUE = 'value-flow of the sequence number from an atomic increment, who-may-touch rule for the counter, container-content dataflow with order'
NOTE = 'all dispatchers of the witness; atomicity of std::atomic and order of std::set/std::sort trusted; wrap-around after 2^32 calls ignored'

ATOMIC = r'^std::(__atomic_base|atomic)<'
STEP = r'::(operator\+\+\((int)?\)|fetch_add\(|operator\+=\()'


def check(ctx):
    ctx.rule('R1', 'the number of a call is the result of an atomic increment of one shared counter, taken while that call is dispatched')
    ctx.rule('R2', 'nothing else changes the counter or the number of a call')
    ctx.rule('R3', 'calls are compared by their numbers, smaller first')
    ctx.rule('R4', 'lists of calls that are searched or reported are complete and in call order')
    u = ctx.unit('core.cpp', [DISPATCH, 'opaque ^fakeit::FakeitContext::(handle|format)\\('])
    glob = set()
    for fn in u.get('dispatch', 4):
        glob |= number(ctx, fn)
    glob.discard(None)
    ctx.require('R1', 'one counter', len(glob) <= 1, 'calls are numbered by different counters: %s' % sorted(glob))
    if glob:
        owners(ctx, u, glob)
    v = ctx.unit('verify.cpp', ['root noo ^' + NOO + '::VerifyExpectation', 'root match ^fakeit::MatchAnalysis::run\\(', 'root cmp ' + COMPARE, 'root mark ^fakeit::Invocation::isVerified', 'opaque ^std::(stable_)?sort<'])
    comparators(ctx, 'R3', v)
    writers(ctx, v)
    lists(ctx, v)
    ctx.need('R1', 4)
    ctx.need('R2', 2)
    ctx.need('R3', 1)
    ctx.need('R4', 2)


def number(ctx, fn):
    st = []
    for x, i in fn.ins.items():
        if i['op'] == 'store':
            p = fn.arg(x, 1)
            if p[0] == '.' and p[2] in numbers(fn.unit) and mm(p[3], r'fakeit::Invocation$'):
                st.append(x)
    ctx.anchor(st, 'number of the call is not stored in ' + fn.name)
    out = set()
    for x in st:
        g, why = origin(fn, fn.ins[x]['args'][0])
        ctx.require('R1', fn.short(), g is not None, 'the number of a call %s (%s)' % (why, fn.where(x)))
        out.add(g)
    return out


def origin(fn, o, d=0):
    """counter whose atomic increment gives the value"""
    i = fn.val(o)
    if i is None or d > 10:
        return None, 'is not the result of a counter'
    if i['op'] in ('add', 'sub'):
        for k in (0, 1):
            if 'c' in i['args'][k]:
                return origin(fn, i['args'][1 - k], d + 1)
    if i['op'] in ('zext', 'sext', 'freeze'):
        return origin(fn, i['args'][0], d + 1)
    if i['op'] == 'trunc':
        return None, 'is cut down to fewer bits'
    if i['op'] == 'atomicrmw' and i.get('rmw') == 'add':
        return counter(fn, i['args'][0], i['args'][1])
    if i['op'] in ('call', 'invoke') and mm(cname(i), ATOMIC) and mm(cname(i), STEP):
        return counter(fn, i['args'][0], i['args'][1] if mm(cname(i), r'fetch_add|\+=') else None)
    if i['op'] == 'load':
        return None, 'is read in a separate step from the increment of its counter'
    return None, 'is not the result of an atomic increment'


def counter(fn, o, by):
    if by is not None and by.get('c') != 1:
        return None, 'does not come from an increment by one'
    p = fn.path(o)
    if p[0] == 'global':
        return p[1], ''
    b = base_of(p)
    if b[0] == 'global':
        return b[1], ''
    return None, 'comes from a counter that is not shared by all calls (%s)' % render(p)


def owners(ctx, u, glob):
    """functions that refer to the counter"""
    g = list(glob)[0]
    users = {}
    syms = set()
    for f, l in u.globals.items():
        for s, tl, loc in l:
            if demangle(s) == g:
                users.setdefault(f, loc)
                syms.add(s)
                ctx.require('R1', 'shared counter', not tl, 'the counter of calls exists once per thread (%s)' % loc)
    ctx.anchor(users, 'users of the counter %s not found' % g)
    users = {f: l for f, l in users.items() if not mm(f, r'^(_GLOBAL__|__cxx_global)')}
    ctx.require('R2', 'users of the counter', len(users) == 1, 'the counter of calls is also used at %s' % sorted(users.values()))


def demangle(s):
    import subprocess
    return subprocess.run(['c++filt', s], capture_output=True, text=True).stdout.strip()


def writers(ctx, u):
    n = 0
    for f, ws in u.writes.items():
        for rec, field, c, loc in ws:
            if field in numbers(u) and mm(rec, r'fakeit::Invocation$'):
                n += 1
                ctx.require('R2', 'writer of the number at ' + loc.split('/')[-1], re.search(r'10InvocationC[12]E', f) is not None, 'the number of a call is changed after its creation (%s)' % loc)
    ctx.anchor(n, 'writer of the number not found')


def lists(ctx, u):
    fn = u.one('noo')

    def at(ev, C):
        if ev[0] == 'ins' and reports(fn.ins[ev[1]]):
            for c, (a, o) in C.items():
                if c[0] == '.' and mm(c[3], r'Event$'):
                    judge(c, a, o)
    Flow(fn, at=at, mark=marktest(flag_of(ctx, u))).run(ctx, 'R4', fn.short())
    m = u.one('match')
    hist = searched(ctx, m)
    asks = set(m.calls(r'fakeit::Invocation::Matcher::matches\('))

    def at(ev, C):
        if ev[0] == 'ins' and ev[1] in asks:
            a, o = C.get(hist, EMPTY)
            a = a - {('in', hist)}
            judge(hist, a, o)
            if len(a) != 1 or any(x[0] != 'of1' for x in a):
                raise Violation('the calls searched are %s' % show_atoms((a, o)))
    fl = Flow(m, at=at)
    # the list is a member of the object of this one evaluation, empty at its start
    fl.run(ctx, 'R4', m.short(), {hist: EMPTY})


def judge(c, a, o):
    if not o:
        raise Violation('the list %s is not in call order: %s' % (render(c), show_atoms((a, o))))
    if not a:
        raise Violation('the list %s misses calls' % render(c))
    for x in a:
        while x[0] == 'unmarked':
            x = x[1]
        if x[0] not in ('of', 'of1'):
            raise Violation('the list %s is not a complete merge of its sources: %s' % (render(c), show_atoms((a, o))))
