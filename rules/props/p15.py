"""What every source hands over is computed as a set expression over its fields
(all calls of all listed sources, of an inner source, its unmarked calls, the calls
stored in a method body). The statements' source objects are then built from the
lowered statement: list contents followed element by element, ownership followed
through the shared pointers, so each statement has a set expression over its
arguments that must be exactly the mocks involved in its patterns, or exactly the
sources given."""
from flow import *
from verif import *

TECHNIQUE = 'container-content dataflow (walk summaries) giving each source a set expression, composed with the object graph each statement builds in the lowered program'
NOTE = 'statements with one to four arguments stand for any number; methods of the witness stand for all; standard container semantics trusted; every stored method body can be asked for its calls'

PTRS = r'^fakeit::(Invocation|ActualInvocationsSource|Sequence) ?\*$'
INVOLVED = r'fakeit::[\w:<>, ]*::getInvolvedMocks\('
EXPECTED = r'fakeit::[\w:<>, ]*::getExpectedSequence\('
SPEC = ['over src ^fakeit::ActualInvocationsSource::getActualInvocations', 'over inv ^fakeit::Sequence::getInvolvedMocks',
        'over exp ^fakeit::Sequence::getExpectedSequence', 'over one ^fakeit::MethodMockingContext<.*>::Context::getInvolvedMock',
        'over scan ^fakeit::MethodMockingContext<.*>::Context::scanActualInvocations', 'over same ^fakeit::Invocation::Matcher::matches',
        'root mark ^fakeit::Invocation::isVerified', 'root ctx ^w_ctx_', 'root comb ^w_(both|times)',
        DISPATCH, 'root seq ' + EVALUATE, 'root noo ^' + NOO + '::VerifyExpectation',
        'opaque ^fakeit::FakeitContext::(handle|format)\\(', 'opaque ^std::(stable_)?sort<']
STATE = ['root st ^w_(verify|unverified|using|restrict|in|noother)[0-9]', 'opaque ^fakeit::SequenceVerificationExpectation::(VerifyExpectation|~)',
         'opaque ^' + NOO + '::(VerifyExpectation|~)', 'opaque ^std::(stable_)?sort<']


def check(ctx):
    ctx.rule('R1', 'a list of sources hands over all calls of all its sources; a wrapper those of its inner source')
    ctx.rule('R2', 'a mock hands over all calls stored in all its method bodies')
    ctx.rule('R3', 'a method named as source hands over exactly its calls accepted by its matcher')
    ctx.rule('R4', 'a pattern names every mock whose methods it consists of, and a method context its own mock')
    ctx.rule('R5', 'statements look at exactly the involved mocks or the given sources')
    ctx.rule('R6', 'evaluations look at the calls of the source of their statement')
    u = ctx.unit('sources.cpp', SPEC)
    flag = flag_of(ctx, u)
    sums = {}
    for f in u.get('src', 8):
        source(ctx, u, f, sums, flag)
    for f in u.get('scan', 3):
        scan(ctx, u, f)
    involved(ctx, u)
    asked = evaluated(ctx, u)
    for f in ctx.unit('sources.cpp', STATE).get('st', 14):
        statement(ctx, u, f, sums, asked)
    for r, k in (('R1', 3), ('R2', 4), ('R3', 6), ('R4', 8), ('R5', 14), ('R6', 2)):
        ctx.need(r, k)


class Present(Flow):
    """as Flow; the mark of an element is 'it is not null'"""

    def kind_of(self, w, xs):
        fn = self.fn
        for name, expect in (('all', lambda f, n: None if n == 1 else 'x'),
                             ('marked', lambda f, n: None if (f is True and n == 1) or (f is False and n == 0) else 'x')):
            e = Each(w, xs, expect=expect)
            e.classify = lambda c, v: present(fn, c, v, w)

            def step(st, ev):
                if ev[0] == 'edge' and ev[2] == 'unwind':
                    return None
                return e.step(st, ev)
            try:
                Sim(fn, step, e.init).run()
                return name
            except Violation:
                continue
        return 'part'


def present(fn, c, v, w):
    i = fn.ins[c]
    if i['op'] != 'icmp' or i['pred'] not in ('eq', 'ne'):
        return None
    a, b = i['args']
    if a.get('null'):
        a, b = b, a
    if not b.get('null') or not w.current(a):
        return None
    return v if i['pred'] == 'ne' else not v


# ---- what a source hands over ---------------------------------------------------
def source(ctx, u, f, sums, flag):
    c = class_of(f)
    into = ('arg', 1, f.params[1]['nm'])
    if mm(c, r'MethodMockingContext|MockingContext'):
        return method_source(ctx, u, f, into)
    out = []

    def at(ev, C):
        if ev[0] == 'exit' and ev[1] == RET:
            out.append(C.get(into, EMPTY)[0])
    mockish = mm(c, r'^fakeit::Mock(Impl)?<')
    fl = (Present(f, of=PTRS, at=at) if mockish else Flow(f, of=PTRS, at=at, mark=marktest(flag)))
    rid = 'R2' if mockish or mm(c, r'RecordedMethodBody') else 'R1'
    fl.run(ctx, rid, f.short())
    ctx.anchor(out, 'no regular end of ' + f.name)
    msg, expr = None, None
    for a in out:
        rest = a - {('in', into)}
        if ('in', into) not in a:
            msg = 'calls handed over by other sources are dropped'
        elif len(rest) != 1:
            msg = 'what is handed over is %s' % show_atoms((rest, False))
        elif expr not in (None, list(rest)[0]):
            msg = 'what is handed over differs from path to path'
        expr = list(rest)[0] if rest else None
    if msg is None:
        if mockish:
            ok = expr[0] == 'of' and expr[1][0] in ('marked', 'in') and (expr[1][1][0] == 'in' if expr[1][0] == 'marked' else True)
            p = expr[1][1][1] if ok and expr[1][0] == 'marked' else expr[1][1] if ok else None
            ok = ok and base_of(p) == ('arg', 0, 'this') and mm(elements(u, p), r'Destructible')
            if not ok:
                msg = 'what a mock hands over is %s instead of all calls of all its method bodies' % show_atom(expr)
        elif mm(c, r'RecordedMethodBody'):
            h = stored(ctx, u, c)
            if expr[0] != 'in' or expr[1][0] != '.' or expr[1][2] != h or base_of(expr[1]) != ('arg', 0, 'this'):
                msg = 'what a method body hands over is %s instead of all its stored calls' % show_atom(expr)
        else:
            m = expr[1] if expr[0] == 'unmarked' else expr
            if m[0] not in ('of', 'of1') or base_of(m[1])[:2] != ('arg', 0):
                msg = 'what is handed over is %s instead of the calls of the inner sources' % show_atom(expr)
            if expr[0] == 'unmarked' and not mm(c, 'Unverified'):
                msg = 'only unverified calls are handed over'
            sums[c] = expr
    ctx.require(rid, f.short(), msg is None, '%s (%s)' % (msg, f.where()))


def elements(u, p):
    if p[0] != '.':
        return ''
    for r in u.records.get(p[3], []):
        for x in r['fields']:
            if x['name'] == p[2]:
                return x['type']
    return ''


def stored(ctx, u, c):
    """container the dispatcher of the body stores its calls in"""
    ds = [d for d in u.get('dispatch') if class_of(d) == c]
    out = set()
    for d in ds:
        calls = set()
        for x, i in d.ins.items():
            if i['op'] in ('call', 'invoke') and mm(cname(i), r'::(push_back|emplace_back|insert|emplace)\b') and len(i['args']) > 1:
                p = d.arg(x, 0)
                if p[0] == '.' and base_of(p) == ('arg', 0, 'this'):
                    out.add(p[2])
    ctx.anchor(len(out) == 1, 'container of the stored calls of %s not found: %s' % (c, sorted(out)))
    return out.pop()


def method_source(ctx, u, f, into):
    """one scan over the stored calls with a closure that hands over the accepted ones"""
    ks = f.calls(r'::Context::scanActualInvocations\(')
    ctx.anchor(ks, 'method source does not scan its calls: ' + f.name)
    ctx.require('R3', f.short() + ': scanned', len(ks) == 1 and f.must_pass_before(RET, ks, unwind=False), 'the calls of the method are scanned %d times or not always (%s)' % (len(ks), f.where(ks[0])))
    name = class_of(f)
    cl = [g for g in u.get('src/closure') if g.name.startswith(name + '::')]
    ctx.anchor(len(cl) == 1, 'scan closure of %s not found' % name)
    g = cl[0]
    tests = g.calls(r'::Matcher::matches\(')
    adds = [x for x, i in g.ins.items() if i['op'] in ('call', 'invoke') and mm(cname(i), CONT) and method_of(cname(i)) in ADDERS]
    ctx.anchor(adds, 'transfer not found in ' + g.name)
    msg = None if tests else 'calls are handed over without asking the matcher (%s)' % g.where(adds[0])
    for t in tests:
        if g.arg(t, 1) != ('arg', 1, g.params[1]['nm']):
            msg = 'another call is tested (%s)' % g.where(t)
        p = g.arg(t, 0)
        m = matcher_field(ctx, u, name)
        if base_of(p) != ('arg', 0, 'this') or (p[0] == '*' and p[1][0] == '.' and p[1][2] != m and not referred(f, p[1], m)):
            msg = 'the test is not asked of the matcher of the method context (%s)' % g.where(t)
    slot = captured(f, into)
    for a in adds:
        i = g.ins[a]
        p = g.arg(a, 0)
        if slot is None or not (p[0] == '*' and field_of(p[1]) == slot):
            msg = 'calls are handed over to another set (%s)' % g.where(a)
        v = Flow.value(Holder(g), i['args'][-1])
        if v != ('arg', 1, g.params[1]['nm']):
            msg = 'another call is handed over (%s)' % g.where(a)
    from sccp import Cond
    for yes in (True, False):
        c = Cond(g, lambda i, val: ('c', int(yes)) if i['id'] in tests else None)
        r = [a for a in adds if c.reached(a)]
        if yes and not r:
            msg = 'an accepted call is not handed over'
        if not yes and r:
            msg = 'a call that is not accepted is handed over (%s)' % g.where(r[0])
        if yes and r:
            skip = [x for x in g.ins if g.ins[x]['op'] == 'ret' and c.reached(x) and not passes(g, c, adds, x)]
            if skip:
                msg = 'an accepted call is not always handed over (%s)' % g.where(skip[0])
    ctx.require('R3', f.short() + ': filter', msg is None, str(msg))


class Holder:
    def __init__(self, fn):
        self.fn = fn


def passes(g, c, through, target):
    """does every executable path to target pass one of `through`?"""
    seen, work = set(), [g.entry]
    while work:
        x = work.pop()
        if x in seen or x in through:
            continue
        seen.add(x)
        if x == target:
            return False
        for k, t in g.succs(x):
            if isinstance(t, int) and k != 'unwind' and (g.block_of[x] == g.block_of[t] or (g.block_of[x], g.block_of[t]) in c.edges):
                work.append(t)
    return True


def field_of(p):
    return p[2] if p[0] == '.' else '<0>'


def captured(f, into):
    """slot of the closure that refers to `into`"""
    out = set()
    for x, i in f.ins.items():
        if i['op'] == 'store' and f.arg(x, 0) == into:
            p = f.arg(x, 1)
            if base_of(p)[0] == 'local':
                out.add(field_of(p))
    return out.pop() if len(out) == 1 else None


def referred(f, slot, m):
    """is the slot of the closure filled with the matcher of the context only?"""
    out = set()
    for x, i in f.ins.items():
        if i['op'] == 'store':
            p = f.arg(x, 1)
            if base_of(p)[0] == 'local' and field_of(p) == field_of(slot):
                out.add(f.arg(x, 0))
    return len(out) == 1 and all(v[0] == '*' and v[1][0] == '.' and v[1][2] == m and base_of(v) == ('arg', 0, 'this') for v in out)


def matcher_field(ctx, u, name):
    for h in u.get('same'):
        if class_of(h) == name:
            out = set()
            for t in h.calls(r'ActualInvocation<.*>::Matcher::matches\('):
                p = h.arg(t, 0)
                if p[0] == '*' and p[1][0] == '.':
                    out.add(p[1][2])
            ctx.anchor(len(out) == 1, 'matcher of %s not found' % name)
            return out.pop()
    ctx.anchor(False, 'acceptance test of %s not found' % name)


def scan(ctx, u, f):
    """the callback is run once for every stored call of the body of the context"""
    runs = [x for x, i in f.ins.items() if i['op'] in ('call', 'invoke') and mm(cname(i), r'^std::function<.*>::operator\(\)\(') and base_of(f.arg(x, 0))[:2] == ('arg', 1)]
    ctx.anchor(runs, 'callback not run in ' + f.name)
    msg = None
    ws = [w for w in walks(f) if all(w.current(f.ins[x]['args'][1]) for x in runs)]
    if len(ws) != 1:
        msg = 'the callback is not run for the calls stored in one container'
    else:
        w = ws[0]
        p = w.owner
        b = base_of(p)
        bodies = set(class_of(g) for g in u.get('dispatch'))
        if b[0] != 'call' or not mm(b[2], r'getRecordedMethodBody\(') or p[0] != '.' or p[2] not in set(stored(ctx, u, c) for c in bodies):
            msg = 'the calls scanned are %s instead of the stored calls of the method body' % render(p)
        elif Flow(f, of=PTRS).kind_of(w, set(runs)) != 'all':
            msg = 'the callback is not run exactly once for every stored call'
        elif not always_ended(f, w):
            msg = 'the scan can end before all calls were seen'
    ctx.require('R3', f.short() + ': scan', msg is None, '%s (%s)' % (msg, f.where(runs[0])))


def always_ended(f, w):
    def step(st, ev):
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'cond' and w.done(ev[1], ev[2]) is True:
            return 1
        if ev[0] == 'exit' and ev[1] == RET and st == 0:
            raise Violation('x')
        return st
    try:
        Sim(f, step, 0).run()
        return True
    except Violation:
        return False


# ---- which mocks a pattern involves ------------------------------------------------
def parts(f, rex):
    """sub-patterns asked (as this-relative paths) and the asking instructions"""
    out = {}
    for x in f.calls(rex):
        out.setdefault(f.arg(x, 0), []).append(x)
    return out


def involved(ctx, u):
    exp = {class_of(f): f for f in u.get('exp', 4)}
    comb = {}
    for f in u.get('comb', 3):
        comb.setdefault(re.sub(r'^.*$', lambda m: m.group(0), f.name), f)
    given = {}
    for f in u.get('comb'):
        for x, i in f.ins.items():
            if i['op'] == 'store':
                v, p = f.arg(x, 0), f.arg(x, 1)
                if v[0] == 'arg' and mm(v[2], r'^[ab]$') and p[0] == '.':
                    given.setdefault(p[3], set()).add(p[2])
    for f in u.get('inv', 5):
        c = class_of(f)
        into = ('arg', 1, f.params[1]['nm'])
        msg = None
        if mm(c, 'MockingContext'):
            ks = [x for x in f.calls(r'::Context::getInvolvedMock\(') if base_of(f.arg(x, 0)) == ('arg', 0, 'this')]
            adds = [x for x, i in f.ins.items() if i['op'] in ('call', 'invoke') and mm(cname(i), r'^std::vector<.*>::(push_back|emplace_back)\b') and f.arg(x, 0) == into]
            vals = [Flow.value(Holder(f), f.ins[x]['args'][1]) for x in adds]
            if not ks or not any(v[0] == 'call' and v[1] in ks for v in vals) or not f.must_pass_before(RET, [x for x, v in zip(adds, vals) if v[0] == 'call' and v[1] in ks], unwind=False):
                msg = 'the mock of the method is not always named'
            elif any(v[0] != 'call' or v[1] not in ks for v in vals):
                msg = 'another source is named'
        else:
            a, b = parts(f, INVOLVED), parts(exp[c], EXPECTED) if c in exp else {}
            ctx.anchor(b, 'parts of the pattern %s not found' % c)
            rec = [k for k in given if mm(k, re.escape(c) + '$')]
            ctx.anchor(len(rec) == 1, 'parts given to %s not found: %s' % (c, sorted(given)))
            want = set(b) | set(('*', ('.', ('arg', 0, 'this'), x, rec[0])) for x in given[rec[0]])
            miss = [p for p in want if p not in a or not f.must_pass_before(RET, a[p], unwind=False)]
            if miss:
                msg = 'the mocks of a part of the pattern (%s) are not always named' % render(miss[0])
            elif set(a) - want:
                msg = 'mocks of something that is no part of the pattern are named'
            elif any(f.arg(x, 1) != into for xs in a.values() for x in xs):
                msg = 'mocks are named in another list'
        ctx.require('R4', f.short(), msg is None, '%s (%s)' % (msg, f.where()))
    mocks = {}
    for f in u.get('ctx', 3):
        ps = [(x, f.arg(x, 0), f.arg(x, 1)) for x, i in f.ins.items() if i['op'] == 'store']
        hit = [(v, p) for x, v, p in ps if p[0] == '.' and p[1][0] == 'call' and v[0] == '.' and v[1] == ('arg', 1, 'm')]
        ok = bool(hit) and all(v[2] == 'impl' or mm(v[3], r'fakeit::Mock$') for v, p in hit)
        ctx.require('R4', f.name, ok, 'the context of a method does not refer to the mock it was made from (%s)' % f.where())
        for v, p in hit:
            mocks.setdefault(p[3], set()).add(p[2])
    for f in u.get('one', 3):
        rets = [i for i in f.ins.values() if i['op'] == 'ret']
        ok = bool(rets)
        for r in rets:
            bs = set(_roots(f, r['args'][0]))
            ok = ok and bool(bs) and all(b[0] == '*' and b[1][0] == '.' and b[1][1] == ('arg', 0, 'this') and b[1][2] in mocks.get(b[1][3], ()) for b in bs)
        ctx.require('R4', f.short(), ok, 'the mock named by a method context is not the mock it belongs to (%s)' % f.where())


def _roots(f, o):
    """pointers an operand may be, behind base-class adjustments"""
    p = f.path(o)
    for q in p[1] if p[0] in ('phi', 'sel') and isinstance(p[1], frozenset) else [p]:
        while isinstance(q, tuple) and q[0] in ('adj', 'at', 'gep0'):
            q = q[1]
        yield q


# ---- evaluations ---------------------------------------------------------------------
def evaluated(ctx, u):
    """(record, this-relative path) of the source each kind of evaluation asks"""
    out = {}
    for f in u.get('seq', 1) + u.get('noo', 1):
        into = [(x, i['args'][0]) for x, i in f.ins.items() if i['op'] in ('call', 'invoke') and mm(cname(i), ASK)]
        ctx.anchor(into, 'no source is asked in ' + f.name)
        ps = set()
        for x, o in into:
            w = [w for w in walks(f) if w.current(o)]
            ps.add(('of', w[0].owner) if w else ('of1', f.path(o)))
        ok = len(ps) == 1 and all(base_of(p[1]) == ('arg', 0, 'this') for p in ps)
        ctx.require('R6', f.short(), ok, 'the calls looked at are %s' % '; '.join(show_atom(p) for p in ps))
        if ok:
            out[class_of(f)] = list(ps)[0]
    return out


# ---- statements ----------------------------------------------------------------------
class Lists(Flow):
    """contents of lists as sequences of items"""

    def run(self):
        fn = self.fn
        final = []
        inits = {}
        for x, i in fn.ins.items():
            if i['op'] in ('call', 'invoke') and mm(cname(i), r'^std::vector<.*>::vector\(std::initializer_list<'):
                inits[x] = self.array(i)

        def items(C, c):
            return C.get(c, () if base_of(c)[0] == 'local' or (c[0] == '.' and base_of(c)[0] == 'call') else (('in', c),))

        def step(st, ev):
            C = dict(st)
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            if ev[0] == 'cond':
                for k, w in enumerate(self.walks):
                    if w.done(ev[1], ev[2]) is True:
                        for (j, t), (xs, how) in sorted(self.moves.items(), key=repr):
                            if j != k:
                                continue
                            src = items(C, w.owner)
                            if w.order == 'backward':
                                src = tuple(reversed(src))
                            if how != 'all':
                                src = (('unknown',),)
                            if t[0] == 'ask':
                                src = tuple(('of1', a[1]) if a[0] == 'elem' else ('of', a) for a in src)
                            C[t[1]] = items(C, t[1]) + src
            elif ev[0] == 'ins' and ev[1] in inits:
                C[fn.arg(ev[1], 0)] = inits[ev[1]]
            elif ev[0] == 'ins' and ev[1] in self.ops:
                x, op = ev[1], self.ops[ev[1]]
                if op[0] == 'new':
                    C[op[1]] = ()
                elif op[0] == 'copy':
                    C[op[1]] = items(C, op[2])
                elif op[0] == 'swap':
                    C[op[1]], C[op[2]] = items(C, op[2]), items(C, op[1])
                elif op[0] == 'range':
                    C[op[1]] = (() if op[3] else items(C, op[1])) + items(C, op[2])
                elif op[0] in ('top', 'sort'):
                    C[op[1]] = (('unknown',),)
                elif op[0] == 'ask' and x not in self.inloop:
                    C[op[1]] = items(C, op[1]) + (('of1', fn.path(op[2])),)
                elif op[0] == 'add' and x not in self.inloop:
                    C[op[1]] = ((('elem', self.value(op[2])),) + items(C, op[1])) if op[4] else items(C, op[1]) + (('elem', self.value(op[2])),)
            elif ev[0] == 'exit' and ev[1] == RET:
                final.append(C)
            return tuple(sorted(C.items(), key=repr))
        Sim(fn, step, ()).run()
        return final

    def array(self, i):
        """elements of the initializer list of a list constructor"""
        fn = self.fn
        la = fn.local_addr(i['args'][1])
        n = i['args'][2].get('c')
        out = [('unknown',)] * (n or 0)
        for x, s in fn.ins.items():
            if s['op'] == 'store':
                k = index(fn.arg(x, 1), fn.path(i['args'][1]))
                if k is not None and k < len(out):
                    out[k] = ('elem', fn.arg(x, 0))
        return tuple(out)


def index(p, base):
    if p == base:
        return 0
    if p[0] == 'at' and len(p[2]) == 1 and p[2][0][0] == 'const':
        k = index(p[1], base)
        return None if k is None else k + p[2][0][1]
    return None


def statement(ctx, u, f, sums, asked):
    n = re.match(r'w_([a-z]+)(\d)', f.name)
    what = n.group(1)
    args = [('arg', k, q['nm']) for k, q in enumerate(f.params) if mm(q['nm'], r'^[abcd]$')]
    ctx.anchor(len(args) == int(n.group(2)), 'arguments of ' + f.name)
    fl = Lists(f, of=PTRS, ask='(%s|%s)' % (ASK, INVOLVED))
    finals = fl.run()
    ctx.anchor(finals, 'no regular end of ' + f.name)
    for C in finals:
        msg = judge(ctx, u, f, what, args, C, sums, asked)
        ctx.require('R5', f.name, msg is None, '%s (%s)' % (msg, f.where()))


def judge(ctx, u, f, what, args, C, sums, asked):
    res = ('arg', 0, f.params[0]['nm'])
    rec = None
    if what in ('using', 'restrict'):
        if what == 'using':
            got = follow(ctx, f, progress_source(f, res), C, sums)
        else:
            c = [k for k in sums if mm(k, 'Unverified')]
            got = expand(ctx, f, sums[c[0]], res, C, sums)
        want = set(('elem', a) for a in args)
    else:
        kind = [k for k in asked if ('NoOther' in k) == (what == 'noother')]
        ctx.anchor(len(kind) == 1, 'evaluation behind %s not found' % f.name)
        objs = set(p[1] for x in f.ins for p in [f.path({'i': x})] if p[0] == '.' and p[1][0] == 'call' and mm(p[3], re.escape(kind[0]) + '$'))
        ctx.anchor(len(objs) == 1, 'expectation built by %s not found' % f.name)
        obj = objs.pop()
        got = expand(ctx, f, asked[kind[0]], obj, C, sums)
        want = set(('elem', a) for a in args) if what == 'noother' else set(('of1', a) for a in args)
        if what == 'in':
            want = None
            if not all(a[0] == 'given' and base_of(a[1])[:2] == ('arg', 1) for a in got) or len(got) != 1:
                return 'a verification restricted by Using looks at %s' % show_set(got)
        if what != 'noother':
            pat = [(p, v) for p, v in C.items() if p[0] == '.' and p[1] == obj and any(x[0] == 'elem' for x in v) and all(x[0] != 'of1' for x in v)]
            if len(pat) != 1 or list(pat[0][1]) != [('elem', a) for a in args]:
                return 'the pattern of the statement is not the list of its arguments in order'
    if what in ('unverified', 'restrict'):
        if not all(a[0] == 'unmarked' for a in got):
            return 'verified calls are looked at'
        got = set(a[1] for a in got)
    elif any(a[0] == 'unmarked' for a in got):
        return 'verified calls are not looked at'
    if want is not None and got != want:
        return 'the statement looks at %s instead of %s' % (show_set(got), show_set(want))
    return None


def show_set(s):
    return '{%s}' % ', '.join(sorted({'elem': '%s', 'of1': 'mocks in %s', 'given': 'source held by %s'}.get(a[0], a[0] + ' %s') % (render(a[1]) if len(a) > 1 and a[1] and a[1][0] not in ('elem', 'of1') else (a[1:] or '')) for a in s))


def progress_source(f, res):
    """address of the source inside the object returned by Using"""
    for x in f.ins:
        p = f.path({'i': x})
        if p[0] == '.' and p[1] == res:
            for y in f.ins:
                q = f.path({'i': y})
                if q[0] == '.' and q[1] == p:
                    return ('*', q)
    return ('*', res)


def subst(p, obj):
    if p == ('arg', 0, 'this'):
        return obj
    if isinstance(p, tuple):
        return tuple(subst(x, obj) if isinstance(x, tuple) else x for x in p)
    return p


def expand(ctx, f, expr, obj, C, sums):
    if expr[0] == 'unmarked':
        return set(('unmarked', a) for a in expand(ctx, f, expr[1], obj, C, sums))
    p = subst(expr[1], obj)
    if expr[0] == 'of1':
        return follow(ctx, f, p, C, sums)
    out = set()
    for a in C.get(p, (('unknown',),)):
        out.add(a)
    return out


def follow(ctx, f, p, C, sums, d=0):
    """set expression of the source at the pointer/path p"""
    ctx.anchor(d < 12, 'source chain too deep in ' + f.name)
    if p[0] == '*':
        inits = [(x, i) for x, i in f.ins.items() if i['op'] in ('call', 'invoke') and mm(cname(i), r'^std::shared_ptr<[^()]*>::(shared_ptr|operator=|reset)[<(]') and f.arg(x, 0) == p[1]]
        if len(inits) == 1:
            x, i = inits[0]
            if mm(cname(i), r'\(std::shared_ptr<') and len(i['args']) > 1:
                return follow(ctx, f, ('*', f.arg(x, 1)), C, sums, d + 1)
            return follow(ctx, f, f.arg(x, 1), C, sums, d + 1)
        if not inits and base_of(p)[0] == 'arg':
            return {('given', p[1])}
        ctx.anchor(False, 'owner of the source at %s in %s not found' % (render(p), f.name))
    c = None
    for x, i in f.ins.items():
        if i['op'] == 'store' and f.arg(x, 1) == p:
            m = re.search(r'vtable for ([\w:]+)', str(i['args'][0]))
            if m:
                c = m.group(1)
    ctx.anchor(c in sums, 'class of the source %s in %s not known' % (render(p), f.name))
    return expand(ctx, f, sums[c], p, C, sums)
