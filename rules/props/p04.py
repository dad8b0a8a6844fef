"""Each way of giving a behaviour is compiled on its own; the actions it appends,
their order, their class and their repeat count are read off the allocation and
compared with what was written. The classes are classified by their done-query
(never, or exactly when the count is zero) and the count must drop by one on every
way out of a run. The queue is checked by position: added in front of the end
mark, taken from the front, removed from the front exactly when done."""
from stubs import *

TECHNIQUE = 'typestate of the action queue on normal and exceptional paths, affine insertion position, sign-domain propagation of the done-query, dataflow of the repeat count'
NOTE = 'all paths of every action class, queue and stubbing entry point instantiated by the witness; vector, shared_ptr and std::function semantics are trusted; a call made from inside the action it runs is not considered'

SPEC = ['root s ^w_[sn]_', 'root q ^w_q_', 'over invoke ^fakeit::Action<.*>::invoke', 'over done ^fakeit::Action<.*>::isDone',
        'root mem ^(.* )?fakeit::ActionSequence<[^(]*>::[~A-Za-z]+\\(', 'over run ^fakeit::ActualInvocationHandler<.*>::handleMethodInvocation']
SPEC2 = ['over doimpl ^fakeit::MethodStubbingProgress<.*>::DoImpl', 'over append ^fakeit::(Stubbing|Spying)Context<.*>::appendAction', 'opaque ^(.* )?fakeit::ActionSequence<.*>::', 'root assign ^(.* )?fakeit::MethodMockingContext<[^(]*>::setMethodBodyByAssignment\\(']
INVOKE = r'^fakeit::Action<.*>::invoke\('
DONE = r'^fakeit::Action<.*>::isDone\('
DOIMPL = r'^fakeit::MethodStubbingProgress<.*>::DoImpl\('
APPEND = r'^fakeit::(Stubbing|Spying)Context<.*>::appendAction\('
SIZE = 16

# what each stubbing call must append: (repeat, where the behaviour comes from)
ONE, EVER = 1, 'ever'
WANT = {
    'return1': [(ONE, {1})], 'return0': [(ONE, set())], 'return3': [(ONE, {1}), (ONE, {2}), (ONE, {3})], 'returnchain': [(ONE, {1}), (ONE, {2})],
    'returnq': [('q1', {1})], 'returntimes': [(3, {1})], 'returnmix': [(ONE, {1}), ('q2', {2}), (ONE, {3})],
    'areturn1': [(EVER, {1})], 'areturn0': [(EVER, set())], 'throw1': [(ONE, {1})], 'throw2': [(ONE, {1}), (ONE, {2})], 'throwq': [('q1', {1})], 'athrow': [(EVER, {1})],
    'do1': [(ONE, {1})], 'do2': [(ONE, {1}), (ONE, {2})], 'doq': [('q1', {1})], 'ado': [(EVER, {1})], 'set': [(ONE, {1, 2})], 'aset': [(EVER, {1, 2})],
    'sreturn1': [(ONE, {1})], 'sareturn1': [(EVER, {1})], 'oreturn1': [(ONE, {1})], 'oreturnq': [('q1', {1})], 'oareturn1': [(EVER, {1})],
    'rreturn1': [(ONE, {1})], 'rareturn1': [(EVER, {1})], 'ureturn1': [(ONE, {1})],
    'vreturn0': [(ONE, set())], 'vareturn0': [(EVER, set())], 'vreturnq': [('q1', set())], 'vreturntimes': [(4, set())],
    'vthrow1': [(ONE, {1})], 'vthrow2': [(ONE, {1}), (ONE, {2})], 'vthrowq': [('q1', {1})], 'vathrow': [(EVER, {1})],
    'vdo1': [(ONE, {1})], 'vdo2': [(ONE, {1}), (ONE, {2})], 'vdoq': [('q1', {1})], 'vado': [(EVER, {1})], 'vset': [(ONE, {1})], 'vaset': [(EVER, {1})],
}


def check(ctx):
    ctx.rule('R1', 'each stubbing call appends exactly the actions it was given, in the order written')
    ctx.rule('R2', 'each appended action runs as often as asked: once, the given number of times, or without end')
    ctx.rule('R3', 'a counted action counts one per run, also when the run throws, and is done exactly when nothing is left')
    ctx.rule('R4', 'the queue is filled in front of its end mark, used from the front, and an action leaves it exactly when done')
    ctx.rule('R5', 'the end mark reports that nothing is left and is never done')
    ctx.rule('R6', 'an appended action reaches the queue of its statement once')
    ctx.rule('R7', 'a quantity keeps the number it was given')
    u = ctx.unit('stub.cpp', SPEC)
    kinds = classes(ctx, u)
    entries(ctx, u, kinds)
    marks = queue(ctx, u, kinds)
    for c in sorted(marks):
        ctx.require('R5', short(c), kinds.get(c, (None,))[0] == 'end', 'the end mark %s does not report the end on every call' % short(c))
    quantities(ctx, u)
    handed(ctx, kinds)
    ctx.need('R1', 40)
    ctx.need('R3', 8)
    ctx.need('R4', 6)
    ctx.need('R5', 3)
    ctx.need('R6', 6)
    ctx.need('R7', 6)


def short(c):
    return re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>', 'std::string', c)


# ---- the classes ------------------------------------------------------------
def classes(ctx, u):
    """{class: (kind, count field)} with kind counted / ever / end"""
    runs = {f.name.rsplit('::invoke(', 1)[0]: f for f in u.get('invoke', 8)}
    kinds = {}
    for d in u.get('done', 8):
        c = d.name.rsplit('::isDone(', 1)[0]
        f = runs.get(c)
        ctx.anchor(f is not None, 'no run of ' + c)
        bad = [k for k in d.stores() if not d.local_addr(d.ins[k]['args'][1])]
        ctx.require('R3', short(c) + ' done-query', not bad and not [k for k in d.all_calls() if not mm(cname(d.ins[k]), r'^llvm\.')], 'asking whether an action is done changes something (%s)' % d.where())
        fields = set(l[2] for i in d.ins.values() if i['op'] == 'load' for l in path_leaves(d.path({'i': i['id']})) if l[0] == 'field')
        kind, fld = None, None
        plain = Cond(d)
        if plain.ret == ('c', 0):
            kind = 'ever'
            r = f.reach([f.entry])
            if RET not in r:
                kind = 'end'
                ts = [throw_type(f.ins[k]) for k in f.calls(r'^__cxa_throw')]
                ctx.require('R5', short(c), ts and all(mm(t, r'NoMoreRecordedAction') for t in ts), 'the end of the queue is reported as %s (%s)' % (ts, f.where()))
        else:
            ctx.anchor(len(fields) <= 1, 'done-query of %s reads several fields' % c)
            if len(fields) == 1:
                kind, fld = 'counted', fields.pop()
                isv = lambda i: i['op'] == 'load'
                z, p = Cond(d, sign_atom(isv, 'zero')).ret, Cond(d, sign_atom(isv, 'pos')).ret
                ctx.require('R3', short(c) + ' done at zero', z == ('c', 1), 'an action with nothing left is not reported as done (%s)' % d.where())
                ctx.require('R3', short(c) + ' not done before', p == ('c', 0), 'an action with runs left is reported as done (%s)' % d.where())
        if kind is None:
            ctx.fail('R3', short(c), 'an action is done independently of how often it ran (%s)' % d.where())
            continue
        kinds[c] = (kind, fld)
        if kind != 'end':
            one_run(ctx, f, c, kind, fld)
    return kinds


def one_run(ctx, f, c, kind, fld):
    """a run calls what it holds once; a counted action counts down by one on every way out"""
    calls = set(f.calls(r'^std::function<.*>::operator\(\)'))
    dec = {}
    for k in f.stores():
        p = f.arg(k, 1)
        if this_field(p) and kind == 'counted' and p[2] == fld:
            d = lin(f, f.ins[k]['args'][0]).add(Lin({('*', p): 1}), -1)
            dec[k] = d == Lin({None: -1})
    held = bool(calls)

    def step(st, ev):
        n, r = st
        if ev[0] == 'ins':
            if ev[1] in dec:
                if not dec[ev[1]]:
                    raise Violation('the number of runs left is not lowered by one (%s)' % f.where(ev[1]))
                n += 1
            if ev[1] in calls:
                r += 1
            if n > 1:
                raise Violation('one run counts twice (%s)' % f.where(ev[1]))
            if r > 1:
                raise Violation('one run calls the behaviour twice (%s)' % f.where(ev[1]))
        if ev[0] == 'exit':
            if kind == 'counted' and n != 1 and (r or ev[1] == RET):
                raise Violation('a run that %s is not counted' % ('throws' if ev[1] == EXC else 'returns'))
            if held and ev[1] == RET and not r:
                raise Violation('a run can end without calling the behaviour')
        return n, r
    ctx.sim('R3', f, step, (0, 0), instance=short(c) + ' run')


# ---- the entry points ---------------------------------------------------------
def count_of(fn, fields, fld):
    if fld is None:
        return EVER
    f = fields.get(fld)
    if f is None or f[0] != 'store':
        return None
    p = fn.path(f[1])
    while p[0] in ('sext', 'zext'):
        p = p[1]
    if p[0] == 'const':
        return p[1]
    if p[0] == '*' and p[1][0] == 'arg':
        return 'q%d' % p[1][1]
    if p[0] == '*' and p[1][0] == '.' and p[1][1][0] == 'arg' and p[1][2] == 'quantity':
        return 'q%d' % p[1][1][1]
    return render(p)


def handed_over(fn, kinds, k):
    """(count, origins, class) of the action passed as argument 1 of call k"""
    p = fn.arg(k, 1)
    o = objects(fn).get(p)
    if o is None or o[0] not in kinds:
        return None
    cls, fields = o
    kind, fld = kinds[cls]
    src = set()
    for nm, (how, op, y) in fields.items():
        if nm == fld or op is None or how == 'store':
            continue
        c = callable_of(fn, op)
        if c is None:
            return None
        if c[0] == 'closure':
            src |= origins(fn, c[2])
        elif c[0] == 'given':
            src |= set(l[1] for l in path_leaves(c[1]) if l[0] == 'arg')
        else:
            src |= {'call:' + c[2]}
    return count_of(fn, fields, fld), frozenset(src), cls


def word(n):
    return {EVER: 'without end', None: 'an unknown number of times'}.get(n, 'the quantity given in argument %s' % n[1:] if isinstance(n, str) and n[0] == 'q' else '%s time(s)' % n)


def entries(ctx, u, kinds):
    done = set()
    for fn in u.get('s', 40):
        nm = fn.name.split('_', 2)
        if nm[1] != 's':
            at_once(ctx, fn, kinds)
            continue
        want = WANT[nm[2]]
        done.add(nm[2])
        calls = fn.calls(DOIMPL)
        ctx.anchor(calls, '%s appends no action' % fn.name)
        what = {}
        for k in calls:
            what[k] = handed_over(fn, kinds, k)
            ctx.anchor(what[k] is not None, 'action appended at %s not understood' % fn.where(k))

        def step(st, ev):
            if ev[0] == 'ins' and ev[1] in what:
                n, src, cls = what[ev[1]]
                if st >= len(want):
                    raise Violation('more actions are appended than were given (%s)' % fn.where(ev[1]))
                if set(src) != want[st][1]:
                    raise Violation('action %d is built from argument(s) %s instead of %s (%s)' % (st + 1, sorted(src), sorted(want[st][1]), fn.where(ev[1])))
                return st + 1
            if ev[0] == 'exit' and ev[1] == RET and st != len(want):
                raise Violation('%d action(s) were given but %d appended' % (len(want), st))
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            return st
        ctx.sim('R1', fn, step, 0, instance=nm[2])
        for k, w in zip(calls, want):
            n = what[k][0]
            ctx.require('R2', '%s action at %s' % (nm[2], fn.where(k)), n == w[0], 'the action is to run %s but is built to run %s (%s)' % (word(w[0]), word(n), fn.where(k)))
    ctx.anchor(done == set(WANT), 'stubbing entry points missing: %s' % sorted(set(WANT) - done))


def at_once(ctx, fn, kinds):
    if 'assign' in fn.name:
        return
    for k in fn.calls(APPEND):
        h = handed_over(fn, kinds, k)
        ctx.anchor(h is not None, 'action appended at %s not understood' % fn.where(k))
        ctx.require('R2', '%s at %s' % (fn.name, fn.where(k)), h[0] == EVER, 'a faked or spied method runs out (%s)' % fn.where(k))


def handed(ctx, kinds):
    """what a stubbing call appends reaches the queue of the statement exactly once"""
    u = ctx.unit('stub.cpp', SPEC2)
    for fn in u.get('doimpl', 3):
        once(ctx, fn, fn.calls(APPEND), ('arg', 1), 'the context')
        rets = [fn.arg(x, 0) for x, i in fn.ins.items() if i['op'] == 'ret' and i['args']]
        ctx.require('R6', fn.short() + ' result', rets and all(r == ('arg', 0, 'this') for r in rets), 'the next call of a chain goes to another statement (%s)' % fn.where())
    for fn in u.get('append', 3):
        once(ctx, fn, fn.calls(r'^(void )?fakeit::ActionSequence<.*>::(?!ActionSequence|~)\w+\('), ('arg', 1), 'the queue')
    for fn in u.get('assign', 3):
        for k in fn.calls(r'^(void )?fakeit::ActionSequence<.*>::(?!ActionSequence|~)\w+\('):
            h = handed_over(fn, kinds, k)
            ctx.anchor(h is not None, 'action appended at %s not understood' % fn.where(k))
            ctx.require('R2', fn.short(), h[0] == EVER, 'an assigned behaviour runs out (%s)' % fn.where(k))
            ctx.require('R1', fn.short(), set(h[1]) == {1}, 'an assignment does not install the behaviour assigned (%s)' % fn.where(k))


def once(ctx, fn, calls, what, noun):
    ctx.anchor(calls, '%s hands nothing to %s' % (fn.short(), noun))
    cs = set(calls)

    def step(st, ev):
        if ev[0] == 'ins' and ev[1] in cs:
            if fn.arg(ev[1], 1)[:2] != what:
                raise Violation('another action is handed to %s (%s)' % (noun, fn.where(ev[1])))
            if st:
                raise Violation('one action is handed to %s twice (%s)' % (noun, fn.where(ev[1])))
            return 1
        if ev[0] == 'exit' and ev[1] == RET and not st:
            raise Violation('an action can get lost before it reaches %s' % noun)
        return st
    ctx.sim('R6', fn, step, 0)


# ---- the queue ------------------------------------------------------------------
def owner_of(fn, field):
    for i in fn.ins.values():
        if i['op'] == 'getelementptr' and i.get('field') == field:
            p = fn.path({'i': i['id']})
            if this_field(p) == field:
                return p
    return None


def queue(ctx, u, kinds):
    marks = set()
    runs = [f for f in u.get('run', 3) if f.calls(INVOKE)]
    ctx.anchor(len(runs) >= 3, 'use of the action queue not found')
    for fn in runs:
        cls = class_of(fn)
        fs = set()
        for k in fn.calls(INVOKE):
            fs |= set(l[2] for l in path_leaves(fn.arg(k, given(fn.ins[k], 0))) if l[0] == 'field' and is_vec_field(u, cls, l[2]))
        ctx.anchor(len(fs) == 1, 'action queue of %s not found' % cls)
        field = fs.pop()
        used(ctx, fn, field)
        for g in u.get('mem'):
            if class_of(g) != cls or g.sym == fn.sym or mm(g.name, r'::~'):
                continue
            muts = [(k, op) for k, op, p in mutations(g) if this_field(p) == field]
            if not muts or part_of(u, g.sym, fn.sym):
                continue
            if len(g.params) > 1:
                filled(ctx, g, field, muts)
            else:
                emptied(ctx, g, field, muts, marks)
    return marks


def part_of(u, sym, whole, seen=()):
    """a helper called by one function and its closures only: seen there already"""
    cs = u.callers.get(sym, set())
    return bool(cs) and sym not in u.overrides and all(c == whole or c.startswith('_ZZ' + whole[2:]) or c not in seen and part_of(u, c, whole, seen + (sym,)) for c in cs)


def used(ctx, fn, field):
    owner = owner_of(fn, field)
    runs = set(fn.calls(INVOKE))
    asks = set(fn.calls(DONE))
    muts = {k: op for k, op, p in mutations(fn) if path_field(p) == field}
    at = {}
    for k in runs:
        g = given(fn.ins[k], 0)
        ea = element_address(fn, fn.ins[k]['args'][g], owner)
        ctx.anchor(ea is not None, 'position of the action run by %s not found' % fn.short())
        pos = position(fn, ea, owner)
        ctx.require('R4', fn.short() + ' takes the front', pos and pos[2] is None and pos[0] == Lin({'B': 1}), 'the action run is not the first of the queue (%s)' % fn.where(k))
        ctx.require('R4', fn.short() + ' arguments', fn.arg(k, g + 1)[:2] == ('arg', fn.p('this') + 1), 'the action is not given the arguments of the call (%s)' % fn.where(k))
    front = set()
    for k, op in muts.items():
        ok = False
        if op == 'erase' and len(fn.ins[k]['args']) == 2:
            ow = fn.arg(k, 0)
            pos = position(fn, fn.ins[k]['args'][1], ow)
            ok = pos and pos[2] is None and pos[0] == Lin({'B': 1})
        ctx.require('R4', '%s %s' % (fn.short(), op), ok, 'an action other than the first leaves the queue (%s at %s)' % (op, fn.where(k)))

    def step(st, ev):
        ph, done, gone = st
        if ev[0] == 'ins':
            x = ev[1]
            if x in runs:
                if ph:
                    raise Violation('one call runs two actions (%s)' % fn.where(x))
                if gone:
                    raise Violation('an action leaves the queue before it ran')
                ph = 1
            if x in muts:
                if done is not True:
                    raise Violation('an action leaves the queue although it is not done (%s)' % fn.where(x))
                if gone:
                    raise Violation('two actions leave the queue after one call (%s)' % fn.where(x))
                gone = 1
            if x in asks and not ph:
                done = None
        if ev[0] == 'cond':
            if ev[1] in asks and ph:
                done = bool(ev[2])
            i = fn.ins[ev[1]]
            if i['op'] in ('call', 'invoke') and mm(cname(i), r'std::function<.*>::operator bool') and not ev[2] and callable_of(fn, i['args'][0]):
                return None
        if ev[0] == 'edge' and ev[2] == 'unwind' and ev[1] not in runs:
            return None
        if ev[0] == 'exit':
            if not ph:
                if ev[1] == RET:
                    raise Violation('a call can be answered without running an action')
                return None
            if done is None:
                raise Violation('an action that %s is not asked whether it is done' % ('threw' if ev[1] == EXC else 'returned'))
            if done and not gone:
                raise Violation('an action that is done stays first in the queue')
        return ph, done, gone
    ctx.sim('R4', fn, step, (0, None, 0), instance=fn.short() + ' use')


def path_field(p):
    return p[2] if isinstance(p, tuple) and p[0] == '.' else None


def filled(ctx, g, field, muts):
    owner = owner_of(g, field)
    ctx.anchor(owner is not None, 'queue not found in ' + g.short())
    ids = set()
    for k, op in muts:
        ctx.anchor(op in ('insert', 'emplace', 'push_back', 'emplace_back'), 'filling of the queue by %s not understood (%s)' % (op, g.where(k)))
        src = None
        o = g.ins[k]['args'][-1]
        la = g.local_addr(o)
        if la:
            src = g.local_source(la[0], la[1], 0)
        else:
            src = g.path(o)
        ctx.require('R4', g.short() + ' element', src is not None and src[:2] == ('arg', 1), 'what enters the queue is not the action given (%s)' % g.where(k))
        if op in ('insert', 'emplace'):
            pos = position(g, g.ins[k]['args'][1], owner)
            ok = pos and pos[2] is None and pos[0] == Lin({'E': 1, None: -SIZE})
        else:
            ok = False
        ctx.require('R4', g.short() + ' place', ok, 'an action is not added right in front of the end mark (%s)' % g.where(k))
        ids.add(k)
    asks = set(g.calls(DONE))

    def step(st, ev):
        done, n = st
        if ev[0] == 'cond' and ev[1] in asks:
            done = bool(ev[2])
        if ev[0] == 'ins' and ev[1] in ids:
            if done is not False:
                raise Violation('an action asked to run zero times is queued (%s)' % g.where(ev[1]))
            n += 1
            if n > 1:
                raise Violation('one action is queued twice (%s)' % g.where(ev[1]))
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'exit' and ev[1] == RET and done is not True and n != 1:
            raise Violation('an action is not queued')
        return done, n
    ctx.sim('R4', g, step, (None, 0), instance=g.short() + ' fill')


def emptied(ctx, g, field, muts, marks):
    """a new or cleared queue holds the end mark only"""
    objs = objects(g)
    ids = dict(muts)
    born = set(k for k in g.all_calls() if mm(cname(g.ins[k]), r'^std::vector<.*>::vector\(\)') and this_field(g.arg(k, 0)) == field)

    def step(st, ev):
        if ev[0] == 'ins':
            x = ev[1]
            if x in born:
                return 0
            if x in ids:
                op = ids[x]
                if op == 'clear':
                    return 0
                if op in ('push_back', 'emplace_back'):
                    o = g.ins[x]['args'][-1]
                    la = g.local_addr(o)
                    src = g.local_source(la[0], la[1], 0) if la else g.path(o)
                    if src not in objs:
                        raise Violation('a new queue holds an unknown action (%s)' % g.where(x))
                    marks.add(objs[src][0])
                    return None if st is None else st + 1 if st != '?' else '?'
                raise Violation('the queue is reset by %s (%s)' % (op, g.where(x)))
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'exit' and ev[1] == RET and st != 1:
            raise Violation('a new or cleared queue does not hold exactly its end mark')
        return st
    ctx.sim('R4', g, step, '?', instance=g.short() + ' reset')


def nameless(p):
    if p[0] == 'arg':
        return p[:2]
    return tuple(nameless(x) if isinstance(x, tuple) else x for x in p)


def quantities(ctx, u):
    want = {'value': ('arg', 0), 'lit': ('trunc', ('arg', 0)), 'void': ('trunc', ('arg', 0)), 'one': ('const', 1), 'of': ('const', 7), 'ofvoid': ('const', 7), 'held': ('arg', 1), 'ofheld': ('arg', 0)}
    seen = 0
    for fn in u.get('q', 8):
        k = fn.name.split('_')[2]
        r = set(nameless(fn.arg(x, 0)) for x, i in fn.ins.items() if i['op'] == 'ret' and i['args'])
        ctx.require('R7', k, r == {want[k]}, 'a quantity holds %s instead of what it was given (%s)' % (sorted(map(str, r)), fn.where()))
        seen += 1
