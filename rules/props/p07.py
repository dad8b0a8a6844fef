"""The search is followed with ghost counters tied to its loop variables by affine
forms: where the next sequence may start, the candidate, the matchers asked so
far, the matches counted. Every call of a matcher must be for the right matcher
and the right recorded call, a part may only count as found when all its matchers
accepted, and the search may only stop when no candidate fits any more. Each kind
of sequence must list as many matchers as it says it has, in the written order."""
from match import *

TECHNIQUE = 'abstract interpretation with ghost counters (affine invariants of the search loops), emission analysis of sequence expressions'
NOTE = 'all histories, patterns and sequence lengths; vector semantics trusted; patterns with at least one sequence of at least one call'

SEQ_SPEC = ['over fill ^fakeit::Sequence::getExpectedSequence', 'over size ^fakeit::Sequence::size', 'root plus ^fakeit::operator\\+\\(fakeit::Sequence', 'root times ^fakeit::operator\\*\\(',
            'root cctor ^fakeit::(ConcatenatedSequence|RepeatedSequence)::(ConcatenatedSequence|RepeatedSequence)\\(']


def check(ctx):
    ctx.rule('R1', 'the search asks the right matcher for the right call and counts exactly the non-overlapping complete matches')
    ctx.rule('R2', 'the pattern is visited from its first part to its last')
    ctx.rule('R3', 'every sequence expression lists its parts in the written order, as many matchers as its size says')
    u = ctx.unit('verify.cpp', MATCH_SPEC)
    fn = u.one('match')
    s = Search(ctx, fn, False).run('R1', fn.short())
    ctx.require('R2', fn.short(), s.order == {'forward'}, 'the pattern is not visited from its first part to its last (%s)' % fn.where())
    v = ctx.unit('verify.cpp', SEQ_SPEC)
    sequences(ctx, v)
    ctx.need('R1', 1)
    ctx.need('R3', 8)


def sequences(ctx, u):
    sizes = {class_of(f): f for f in u.get('size', 3)}
    ctor = {}
    for f in u.get('cctor', 2):
        # field -> constructor parameter
        m = {}
        for x, i in f.ins.items():
            if i['op'] == 'store':
                p, q = f.arg(x, 1), f.arg(x, 0)
                if this_field(p) and q[0] == 'arg':
                    m[this_field(p)] = q[1]
        if any(v for v in m.values()) and 'const&)' in f.name or m:
            c = class_of(f)
            if len(m) >= len(ctor.get(c, {})):
                ctor[c] = m
    kinds = set()
    for f in u.get('fill', 3):
        c = class_of(f)
        ctx.anchor(c in sizes, 'size of %s not found' % c)
        em = emission(ctx, f)
        sz = size_form(ctx, sizes[c])
        ctx.require('R3', 'size of ' + c, sz is not None and sorted(sz.items(), key=repr) == sorted(total(em).items(), key=repr), 'the size is not the number of matchers listed (%s)' % sizes[c].where())
        m = ctor.get(c, {})
        if len([e for e in em if e[0] == 'part']) == 2:
            kinds.add('plus')
            o = [m.get(e[1]) for e in em]
            ctx.require('R3', 'order in ' + c, o == [1, 2], 'the parts are not listed in the order they were given (%s)' % f.where())
        elif any(e[2] != () for e in em):
            kinds.add('times')
            e = em[0]
            ctx.require('R3', 'repetition in ' + c, len(em) == 1 and m.get(e[1]) == 1 and m.get(e[2][0]) == 2, 'a repetition does not list its sequence the given number of times (%s)' % f.where())
        else:
            kinds.add('one')
            ctx.require('R3', 'single call ' + c, em == [('self', None, ())], 'a single call does not list exactly itself (%s)' % f.where())
    ctx.anchor(kinds == {'plus', 'times', 'one'}, 'kinds of sequence found: %s' % sorted(kinds))
    for f in u.get('plus', 1):
        builds(ctx, f, ctor, (0, 1))
    for f in u.get('times', 2):
        if mm(f.name, r'operator\*\((fakeit::Sequence const&, int|int, fakeit::Sequence const&)\)'):
            builds(ctx, f, ctor, (0, 1) if f.name.endswith('int)') else (1, 0))


def builds(ctx, f, ctor, want):
    """the operator hands its operands to the sequence object in the written order"""
    # parameters may be preceded by the place of the result
    off = 1 if len(f.params) == 3 else 0
    got = {}
    for x, i in f.ins.items():
        if i['op'] == 'store':
            p, q = f.arg(x, 1), f.arg(x, 0)
            if p[0] == '.' and q[0] == 'arg':
                for c, m in ctor.items():
                    if p[2] in m and mm(p[3], c.split('::')[-1]):
                        got[m[p[2]]] = q[1] - off
    if got:
        ctx.require('R3', f.short(), got == {1: want[0], 2: want[1]}, 'the operands are not combined in the written order (%s)' % f.where())
        return
    for k in f.calls(r'(ConcatenatedSequence|RepeatedSequence)::'):
        a = [f.arg(k, n) for n in (1, 2)]
        got = {n + 1: (a[n][1] - off if a[n][0] == 'arg' else None) for n in (0, 1)}
    ctx.anchor(got, 'construction of the sequence not found in ' + f.name)
    ctx.require('R3', f.short(), got == {1: want[0], 2: want[1]}, 'the operands are not combined in the written order (%s)' % f.where())


def total(em):
    t = {}
    for kind, field, mult in em:
        k = tuple(sorted(([field] if kind == 'part' else []) + list(mult), key=repr))
        t[k] = t.get(k, 0) + 1
    return t


def emission(ctx, f):
    """[(self|part, field, multiplicity factors)] in order; the same on every path"""
    acts = {}
    for k in f.calls(FILL):
        p = f.arg(k, 0)
        fl = [x for x in [this_field(q) for q in chain(p)] if x]
        ctx.anchor(fl, 'part listed is not a field: %s' % render(p))
        acts[k] = ('part', fl[0])
    for k, op, p in mutations(f):
        if mm(cname(f.ins[k]), r'Matcher\*') and op in VEC_ADD:
            acts[k] = ('self', None)
    ctx.anchor(acts, '%s lists nothing' % f.name)
    out = {}
    loops = {}
    for k in acts:
        ln = nest(f, f.block_of[k])
        if not ln:
            loops[k] = ()
        else:
            ctx.anchor(len(ln) == 1, 'nested loops in ' + f.name)
            loops[k] = (count_of(ctx, f, ln[0]),)
    seqs = set()

    def step(st, ev):
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'ins' and ev[1] in acts:
            e = acts[ev[1]] + (loops[ev[1]],)
            if loops[ev[1]] and st and st[-1] == e:
                return st
            return st + (e,) if len(st) < 6 else st
        if ev[0] == 'exit' and ev[1] == RET:
            seqs.add(st)
        return st
    s = Sim(f, step, ())
    s.run()
    ctx.stats['automaton_states'] += s.visited
    # a loop may run no time at all
    if any(loops.values()):
        seqs.discard(())
    if len(seqs) != 1:
        return sorted(seqs)[-1] + (('self', 'varies', ()),) if seqs else []
    return list(seqs.pop())


def chain(p):
    while isinstance(p, tuple) and p[0] in ('.', '*', 'adj', 'at', 'gep0'):
        yield p
        p = p[1]


def count_of(ctx, f, h):
    """field that says how often the loop runs, when it runs exactly that often"""
    moving = []
    for q in f.blocks[h]:
        if q['op'] == 'phi':
            r = recurrence(f, q['id'], None)
            if r:
                moving.append((q['id'], r))
    body = natural(f, h)
    conds = []
    for b in body:
        t = f.blocks[b][-1]
        if 'cond' in t and any(s not in body for s in t['succ']):
            conds.append((t, [s in body for s in t['succ']]))
    if len(conds) != 1 or not moving:
        return '?loop'
    t, stay = conds[0]
    c = f.val(t['cond'])
    if c is None or c['op'] != 'icmp':
        return '?loop'
    pred = c['pred'] if stay[0] else NEG[c['pred']]
    d = lin(f, c['args'][0]).add(lin(f, c['args'][1]), -1)
    p = pred if pred in ('eq', 'ne') else pred[1:]
    # stay while d `p` 0; express as n - i - e > 0 with i counting from 0 by one
    for x, (init, st) in moving:
        a = d.get(('phi', x))
        if not a:
            continue
        rest = Lin({k: v for k, v in d.items() if k != ('phi', x)}).add(init, a)
        # at iteration t: d = rest + a*st*t
        slope = a * st
        if p in ('gt', 'ge', 'ne') and slope < 0:
            g, sl = rest, -slope
        elif p in ('lt', 'le', 'ne') and slope > 0:
            g, sl = rest.scale(-1), slope
        else:
            continue
        # stay while g - sl*t (>|>=) 0
        if p in ('ge', 'le'):
            g = g.add(num(1))
        g = g.scale(Fraction(1) / sl)
        if set(g) - {None} and g.get(None, 0) == 0 and len(g) == 1:
            s, cf = list(g.items())[0]
            fl = [y for y in [this_field(q) for q in chain(s)] if y]
            if cf == 1 and fl:
                return fl[0]
    return '?loop'


def size_form(ctx, f):
    """{factors: count}"""
    forms = set()
    for x, i in f.ins.items():
        if i['op'] == 'ret' and i['args']:
            t = poly(f, i['args'][0])
            if t is None:
                return None
            forms.add(tuple(sorted(t.items(), key=repr)))
    return dict(forms.pop()) if len(forms) == 1 else None


def poly(f, o, d=0):
    if 'c' in o:
        return {(): o['c']} if o['c'] else {}
    i = f.val(o)
    if i is None or d > 20:
        return None
    if i['op'] in ('zext', 'sext', 'trunc') and not narrows(i):
        return poly(f, i['args'][0], d + 1)
    if i['op'] in ('add', 'mul'):
        a, b = (poly(f, x, d + 1) for x in i['args'])
        if a is None or b is None:
            return None
        r = {}
        if i['op'] == 'add':
            for t in (a, b):
                for k, v in t.items():
                    r[k] = r.get(k, 0) + v
        else:
            for k, v in a.items():
                for k2, v2 in b.items():
                    kk = tuple(sorted(k + k2, key=repr))
                    r[kk] = r.get(kk, 0) + v * v2
        return r
    if i['op'] in ('call', 'invoke') and mm(cname(i), SIZEOF):
        fl = [x for x in [this_field(q) for q in chain(f.path(i['args'][0]))] if x]
        return {(fl[0],): 1} if fl else None
    if i['op'] == 'load':
        fl = [x for x in [this_field(q) for q in chain(f.path(i['args'][0]))] if x]
        return {(fl[0],): 1} if fl else None
    return None
