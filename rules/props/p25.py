"""What a reader of a report sees (each query of the event) is traced to the
event's fields; a statement's construction, its file information and its count
request leave affine values in its fields, and at the point where the failure is
reported the event's fields must hold exactly those values. The lists the event
carries are followed by the container-content dataflow."""
from flow import *
from verif import *

TECHNIQUE = 'affine value tracking of event and statement fields from request to report, container-content dataflow for the lists, constant and literal matching at the macro call sites'
NOTE = 'every count request and all numbers asked for or found; the file information of every statement form of the witness'

OP = ['opaque ^fakeit::smart_ptr<.*>::(~?smart_ptr|operator=)']
SPEC = ['root get ^w_get_', 'root enum ^w_enum_', 'root file ^w_file_', 'root count ^w_count_(Exactly|AtLeast)$', 'root seq ^' + SEQ + '::VerifyExpectation', 'root noo ^' + NOO + '::VerifyExpectation',
        'root run ^fakeit::MatchAnalysis::run', 'opaque ^fakeit::MatchAnalysis::', 'opaque ^fakeit::InvocationUtils::(?!sortBy)', 'opaque ^std::(stable_)?sort<'] + OP
MACRO = ['root st ^w_(verify|using|unverified|noother)[0-9]', 'opaque ::setFileInfo\\('] + OP
RUN = ['root run ^fakeit::MatchAnalysis::run', 'opaque ^std::(stable_)?sort<']
BODY = [DISPATCH, 'root un ^fakeit::MockImpl<.*>::unmocked\\(', 'opaque ^fakeit::FakeitContext::(handle|format)\\(']
KP = [Region('n < k', [dict(k=1, n=0)], [dict(k=1), dict(k=1, n=1)]), Region('n > k', [dict(k=1, n=2)], [dict(n=1), dict(k=1, n=1)]), Region('k = 0', [dict(k=0, n=1)], [dict(n=1)])]


def ekey(rec):
    obj = object_fields(rec)

    def key(p):
        k = obj(p)
        if k is not None:
            return k
        if isinstance(p, tuple) and p[0] == '.' and mm(p[3], r'Event$') and p[1][0] == 'local':
            return ('E', p[2])
        return None
    return key


def check(ctx):
    ctx.rule('R1', 'a failed sequence verification reports its kind, the number asked for and the number found')
    ctx.rule('R2', 'a failed verification reports file, line and function given by its statement')
    ctx.rule('R3', 'a failed sequence verification reports its whole pattern and all calls considered, in order')
    ctx.rule('R4', 'the statements pass their own file, line and function')
    ctx.rule('R5', 'an unexpected call is reported with the call itself and the right kind')
    u = ctx.unit('verify.cpp', SPEC)
    get = {}
    for f in u.get('get', 12):
        get[f.name.replace('w_get_', '')] = field_of(ctx, f)
    enum = {}
    for f in u.get('enum', 5):
        r = [i for i in f.ins.values() if i['op'] == 'ret'][0]
        ctx.anchor('c' in r['args'][0], 'enumerator value not found')
        enum[f.name.replace('w_enum_', '')] = r['args'][0]['c']
    distinct(ctx, get)
    seq = u.one('seq')
    SEQREC = 'struct.' + SEQ
    mems = {}
    for f in u.get('file', 2):
        rec = SEQREC if f.name.endswith('seq') else NOOTHER
        mems[rec] = filed(ctx, f, rec)
    for f in u.get('count', 2):
        nm = f.name.replace('w_count_', '')
        for r in KP:
            if nm == 'AtLeast' and r.name != 'n < k':
                continue
            mem = dict(mems[SEQREC])
            mem.update(request(ctx, f, r, SEQREC))
            report(ctx, seq, r, mem, SEQREC, get, enum['exact' if nm == 'Exactly' else 'atleast'], '%s, %s' % (nm, r.name), True)
    report(ctx, u.one('noo'), Region('some', [{'n': 1}], [{'n': 1}]), mems[NOOTHER], NOOTHER, get, enum['nomore'], 'no other calls', False)
    lists(ctx, seq, get)
    macros(ctx)
    unexpected(ctx, get, enum)
    ctx.need('R1', 4)
    ctx.need('R2', 5)
    ctx.need('R3', 1)
    ctx.need('R4', 9)
    ctx.need('R5', 5)


def distinct(ctx, get):
    for grp in (('expectedCount', 'actualCount'), ('expectedPattern', 'actualSequence'), ('allIvocations', 'unverifedIvocations'), ('file', 'callingMethod')):
        ctx.require('R1' if 'Count' in grp[0] else 'R2' if grp[0] == 'file' else 'R3', ' and '.join(grp), len(set(get[g] for g in grp)) == len(grp), 'the queries %s of a report give the same field' % ' and '.join(grp))


def field_of(ctx, f):
    """field of the event a query gives"""
    r = [i for i in f.ins.values() if i['op'] == 'ret'][0]
    p = f.path(r['args'][0])
    while p[0] in ('*', 'trunc', 'zext', 'sext'):
        p = p[1]
    if p[0] == '.':
        return p[2]
    ctx.anchor(p[0] == 'arg', 'query %s is not a field: %s' % (f.name, render(p)))
    return '<0>'


def filed(ctx, f, rec):
    """fields of the statement after it was given file 'file', line 'line', function 'func'"""
    def step(S, ev):
        return not (ev[0] == 'edge' and ev[2] == 'unwind')
    a = Aff(f, step, None, {}, Region('any'), params={1: sym('file'), 2: sym('line'), 3: sym('func')}, memkey=ekey(rec))
    a.run()
    outs = [{k: v for k, v in S.mem.items() if isinstance(k, tuple) and k[0] == 'F' and isinstance(v, Lin) and set(v) <= {'file', 'line', 'func'} and v} for ex, S in a.exits]
    ctx.anchor(outs and all(o == outs[0] for o in outs), 'file information of a statement not found')
    return outs[0]


def request(ctx, f, region, rec):
    def step(S, ev):
        return not (ev[0] == 'edge' and ev[2] == 'unwind')
    params = {k: sym('k') for k, q in enumerate(f.params) if q['ty'] == 'i32'}
    a = Aff(f, step, None, {}, region, params=params, memkey=ekey(rec))
    a.run()
    outs = [{k: v for k, v in S.mem.items() if isinstance(k, tuple) and k[0] == 'F' and scalar(v)} for ex, S in a.exits if ex == RET]
    ctx.anchor(outs, 'no outcome of the request ' + f.name)
    return outs[0]


def report(ctx, fn, region, mem, rec, get, kind, inst, counts):
    load, call, ok = found_hooks(fn)
    seen = []

    def step(S, ev):
        if ev[0] == 'ins' and reports(fn.ins[ev[1]]):
            i = fn.ins[ev[1]]
            e = base_of(fn.arg(ev[1], 1))
            ctx.anchor(e[0] == 'local', 'reported event is not a local object')
            g = lambda q: S.mem.get(('E', get[q]))
            bad = []
            if const(g('verificationType')) != kind:
                bad.append(('R1', 'the reported kind is %s instead of %d' % (sh(g('verificationType')), kind)))
            if counts:
                if fzv(g('expectedCount')) != fzv(sym('k')):
                    bad.append(('R1', 'the reported number asked for is %s instead of the number asked for' % sh(g('expectedCount'))))
                if fzv(g('actualCount')) != fzv(sym('n')):
                    bad.append(('R1', 'the reported number found is %s instead of the number found' % sh(g('actualCount'))))
            for q, s in (('file', 'file'), ('line', 'line'), ('callingMethod', 'func')):
                if fzv(g(q)) != fzv(sym(s)):
                    bad.append(('R2', 'the reported %s is %s instead of the one given by the statement' % (q, sh(g(q)))))
            seen.append((ev[1], bad))
        return not (ev[0] == 'edge' and ev[2] == 'unwind')
    keys = set(k for k in mem)
    a = Aff(fn, step, None, mem, region, load=load, call=call, memkey=ekey(rec))
    # event fields are written before they are read by the reader of the report
    a.later = {b: a.later[b] | set(('E', f) for f in get.values()) | keys for b in a.later}
    a.run()
    ctx.stats['automaton_states'] += a.visited
    ctx.anchor(seen, 'no failure is reported for ' + inst)
    for rid in ('R1', 'R2'):
        b = [(x, m) for x, bad in seen for r, m in bad if r == rid]
        ctx.require(rid, inst, not b, b and '%s (%s)' % (b[0][1], fn.where(b[0][0])))


def sh(v):
    return 'not set' if v is None else show(v)


def lists(ctx, seq, get):
    ru = ctx.unit('verify.cpp', RUN)
    run = ru.one('run')
    s = searched(ctx, run)
    ctx.anchor(base_of(s) == ('arg', 0, 'this'), 'list of the calls considered is not part of the analysis')
    sub = s[2] if s[0] == '.' else '<0>'
    pat = ('.', ('arg', 0, 'this'), '_expectedPattern', 'struct.' + SEQ)
    owners = set()
    for k in seq.calls(r'^fakeit::MatchAnalysis::run'):
        for o in seq.ins[k]['args'][1:]:
            p = seq.path(o)
            if p[0] == '.' and (mm(p[2], 'attern') or mm(type_at(seq.unit, p), r'vector<.*Sequence')):
                pat = p
    n = []

    def at(ev, C):
        if ev[0] != 'ins':
            return
        i = seq.ins[ev[1]]
        if i['op'] in ('call', 'invoke') and mm(cname(i), r'^fakeit::MatchAnalysis::(?!~?MatchAnalysis\()'):
            ma = seq.path(i['args'][0])
            for x, op in fl.ops.items():
                for c in op[1:3]:
                    if isinstance(c, tuple) and base_of(c) == ma:
                        C[c] = (frozenset([('in', c)]), True)
        if reports(i):
            e = base_of(seq.arg(ev[1], 1))
            n.append(ev[1])
            for q, rex in (('expectedPattern', None), ('actualSequence', None)):
                c = [v for p, v in C.items() if p[0] == '.' and p[1] == e and p[2] == get[q]]
                if q == 'expectedPattern' and fl is fp:
                    if len(c) != 1 or c[0] != (frozenset([('in', pat)]), True):
                        raise Violation('the reported pattern is %s instead of the pattern of the statement' % (c and show_atoms(c[0]) or 'empty'))
                if q == 'actualSequence' and fl is fi:
                    ok = False
                    if len(c) == 1 and len(c[0][0]) == 1 and c[0][1]:
                        a = list(c[0][0])[0]
                        ok = a[0] == 'in' and (a[1][2] if a[1][0] == '.' else '<0>') == sub and base_of(a[1])[0] == 'local'
                    if not ok:
                        raise Violation('the reported calls are %s instead of the calls considered' % (c and show_atoms(c[0]) or 'empty'))
    for of in (r'^fakeit::Sequence ?\*$', r'^fakeit::Invocation ?\*$'):
        fl = Flow(seq, of=of, at=at)
        if 'Sequence' in of:
            fp, fi = fl, None
        else:
            fi, fp = fl, None
        bad = [x for x, op in fl.ops.items() if op[0] == 'sort']
        if bad and fp is fl:
            ctx.fail('R3', seq.short(), 'the pattern is reordered at %s' % seq.where(bad[0]))
            continue
        fl.run(ctx, 'R3', '%s: %s' % (seq.short(), 'pattern' if fp is fl else 'calls'), init={pat: (frozenset([('in', pat)]), True)} if fp is fl else None)
    ctx.anchor(n, 'no report in the verification')


def macros(ctx):
    u = ctx.unit('verify.cpp', MACRO)
    for f in u.get('st', 9):
        ks = f.calls(r'::setFileInfo\(')
        msg = None
        if len(ks) != 1:
            msg = 'the statement passes its position %d times' % len(ks)
        else:
            i = f.ins[ks[0]]
            s = [x for x in i['args'] if not (x.get('i') is not None and 'sret' in i)]
            a = [f.path(x) for x in i['args']]
            lits = [(k, p[2]) for k, p in enumerate(a) if p[0] == 'global' and p[2]]
            line = [(k, p[1]) for k, p in enumerate(a) if p[0] == 'const']
            here = int(re.search(r':(\d+)$', i['loc']).group(1))
            if len(lits) != 2 or not lits[0][1].rstrip('\0').endswith('verify.cpp') or lits[1][1].rstrip('\0') != f.name:
                msg = 'file and function passed by the statement are %s' % [x[1] for x in lits]
            elif len(line) != 1 or line[0][1] != here:
                msg = 'the line passed by the statement is %s instead of %d' % (line and line[0][1], here)
            elif not (lits[0][0] < line[0][0] < lits[1][0]):
                msg = 'position passed in another order'
            elif not f.must_pass_before(RET, [ks[0]], unwind=False):
                msg = 'the statement can end without passing its position'
        ctx.require('R4', f.name, msg is None, str(msg))


def unexpected(ctx, get, enum):
    u = ctx.unit('core.cpp', BODY)
    for f, kind in [(f, 'unmatched') for f in u.get('dispatch', 4)] + [(f, 'unmocked') for f in u.get('un', 1)]:
        hs = f.calls(r'^fakeit::FakeitContext::handle\(fakeit::UnexpectedMethodCallEvent')
        ctx.anchor(hs, 'unexpected call not reported in ' + f.short())
        call = set()
        for x, i in f.ins.items():
            if i['op'] == 'store':
                t = f.arg(x, 1)
                if t[0] == '.' and t[2] in numbers(f.unit):
                    call.add(t[1])
        msg = None
        for h in hs:
            e = f.path(f.ins[h]['args'][1])
            ctx.anchor(e[0] == 'local', 'event object not found')
            vals = {}
            for x, i in f.ins.items():
                if i['op'] == 'store':
                    t = f.arg(x, 1)
                    if t == e or (t[0] == '.' and t[1] == e):
                        if h in f.reach([x], unwind=False):
                            vals.setdefault(t[2] if t[0] == '.' else '<0>', []).append((x, f.arg(x, 0)))
            k = vals.get(get['unexpectedType'], [])
            c = vals.get(get['invocation'], [])
            if len(k) != 1 or k[0][1] != ('const', enum[kind]):
                msg = 'the kind of unexpected call reported is %s (%s)' % ([render(x[1]) for x in k] or 'not set', f.where(h))
            elif len(c) != 1 or c[0][1] not in call:
                msg = 'the call reported is not the call made (%s)' % f.where(h)
        ctx.require('R5', f.short(), msg is None, str(msg))
