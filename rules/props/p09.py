"""Marks are stores to one flag of a recorded call. The evaluation of a statement is
followed through every outcome: on success each element of the list of matched
calls is marked by an exhaustive walk, on failure no mark is stored. The list
holds exactly the calls of complete matches (ghost counters over the search), and
a who-may-write rule covers the flag in the whole program."""
from match import *

TECHNIQUE = 'effect analysis (who may write the mark), typestate of the evaluation with exhaustive-walk recognition, ghost-counter invariants for the matched list'
NOTE = 'all histories and patterns; marks are the stores to the flag read by the is-verified query'


def check(ctx):
    ctx.rule('R1', 'a successful evaluation marks every call of the matched list, a failed one marks nothing')
    ctx.rule('R2', 'the mark is only set by an evaluation and never taken away')
    ctx.rule('R3', 'the matched list holds exactly the calls of complete matches')
    u = ctx.unit('verify.cpp', ['root eval ' + EVALUATE, 'root mark ^fakeit::Invocation::(markAsVerified|isVerified)', 'opaque ^fakeit::MatchAnalysis::', 'opaque ^fakeit::.*Event::'])
    flag = flag_field(ctx, u)
    fn = u.one('eval')
    marking(ctx, fn, flag)
    writers(ctx, u, flag, fn.sym)
    s = ctx.unit('verify.cpp', MATCH_SPEC)
    m = s.one('match')
    sr = Search(ctx, m, True)
    ctx.anchor(sr.matched, 'list of matched calls not found in the search')
    sr.run('R3', m.short())
    # the list marked is the list the search filled
    got = set(p[2] for p in ctx_matched)
    ctx.require('R3', 'same list', got == {sr.matched[2]}, 'the list marked (%s) is not the list of matched calls (%s)' % (sorted(got), sr.matched[2]))
    ctx.need('R1', 1)
    ctx.need('R2', 2)


ctx_matched = set()


def flag_field(ctx, u):
    q = u.one('mark', r'isVerified')
    r = None
    for x, i in q.ins.items():
        if i['op'] == 'ret':
            r = q.arg(x, 0)
    fl = [(p[3], p[2]) for p in chain_fields(r)]
    ctx.anchor(len(fl) == 1, 'flag behind the is-verified query not found')
    return fl[0]


def chain_fields(p):
    out = []
    def go(p):
        if isinstance(p, tuple):
            if p and p[0] == '.':
                out.append(p)
            for x in p[1:]:
                if isinstance(x, (tuple, frozenset)):
                    go(x)
        elif isinstance(p, frozenset):
            for x in p:
                go(x)
    go(p)
    return out


def marking(ctx, fn, flag):
    stores = {}
    for x, i in fn.ins.items():
        if i['op'] == 'store':
            p = fn.arg(x, 1)
            if p[0] == '.' and (p[3], p[2]) == flag:
                stores[x] = i
    ctx.anchor(stores, 'the evaluation never marks a call')
    ws = [w for w in walks(fn) if any(w.current(base_operand(fn, i['args'][1])) for i in stores.values())]
    ctx_matched.clear()
    for x, i in stores.items():
        ctx.require('R1', 'value at ' + fn.where(x), i['args'][0].get('c') == 1, 'a mark is taken away at %s' % fn.where(x))
    if not ws:
        ctx.fail('R1', fn.short(), 'calls are marked without walking the list of matched calls from end to end (%s)' % fn.where(list(stores)[0]))
        ctx_matched.add(('.', None, '?'))
        return
    w = ws[0]
    ctx_matched.add(w.owner)
    other = [x for x, i in stores.items() if not w.current(base_operand(fn, i['args'][1]))]
    ctx.require('R1', 'only matched calls', not other, 'a call that is not of the matched list is marked at %s' % (other and fn.where(other[0])))
    e = Each(w, set(stores), noun='matched call')
    e.expect = lambda marked, n: None if n >= 1 or marked else 'is not marked'
    e.classify = lambda c, v: v if is_flag(fn, c, flag, w) else None

    def step(st, ev):
        ph, walk, marked = st
        if ev[0] == 'ins':
            i = fn.ins[ev[1]]
            if evaluates(i):
                ph = 'evaluated'
            elif reports(i):
                if marked:
                    raise Violation('a failing verification has already marked calls (%s)' % fn.where(ev[1]))
                ph = 'failed'
            elif ev[1] in stores:
                if ph == 'failed':
                    raise Violation('a failed verification marks calls (%s)' % fn.where(ev[1]))
                marked = True
        if ev[0] == 'edge' and ev[2] == 'unwind' and not reports(fn.ins[ev[1]]):
            return None
        walk = e.step(walk, ev)
        if walk is None:
            return None
        if ev[0] == 'exit' and ev[1] == RET and ph == 'evaluated' and walk[0] != 'done':
            raise Violation('a successful verification can end before all matched calls are marked')
        return ph, walk, marked
    ctx.sim('R1', fn, step, ('idle', e.init, False))


def is_flag(fn, x, flag, w):
    """is the value the mark of the current call?"""
    i = fn.ins[x]
    if i['op'] != 'load':
        return False
    p = fn.arg(x, 0)
    return p[0] == '.' and (p[3], p[2]) == flag and w.current(base_operand(fn, i['args'][0]))


def base_operand(fn, o):
    """pointer the address was formed from"""
    i = fn.val(o)
    while i is not None and i['op'] == 'getelementptr':
        o = i['args'][0]
        i = fn.val(o)
    return o


def writers(ctx, u, flag, evaluator):
    short = flag[0].split('.', 1)[-1]
    n = 0
    for sym_, ws in u.writes.items():
        for rec, f, c, loc in ws:
            if f != flag[1] or rec.split('.', 1)[-1] != short:
                continue
            n += 1
            name = 'writer at ' + loc.split('/')[-1]
            if re.search(r'10InvocationC[12]E', sym_):
                ctx.require('R2', name, c == 0, 'a new call starts out marked (%s)' % loc)
            elif c == 1:
                ok = sym_ == evaluator or u.only_called_from(sym_, {evaluator})
                ctx.require('R2', name, ok, 'calls are also marked outside the evaluation of a verification, by a caller of %s (%s)' % (name, loc))
            else:
                ctx.fail('R2', name, 'a mark is taken away by %s (%s)' % (name, loc))
    ctx.anchor(n >= 2, 'writers of the mark not found')
