"""Every ReturnAndSet witness names in its own name which parameter each given value
is for. The callable it stores is found; the elements of the tuples in it are traced
to the given values, and every write its body makes to a parameter is traced to an
element. The composition of the two maps must be the map in the name, under every
language standard. Out-of-range placeholders must not compile."""
from stubs import *

TECHNIQUE = 'dataflow map given value -> kept tuple element -> parameter written, over the type-checked IR of every placeholder permutation up to three values; compile-fail witnesses for out-of-range placeholders'
NOTE = 'methods with three and four parameters (reference, const reference, pointer, value) stand for all; std::tuple, std::get and assignment operators of value types are trusted'

DOIMPL = r'^fakeit::MethodStubbingProgress<.*>::DoImpl\('
# how a parameter is written: 'r' directly, 'p' through the pointer it holds
KINDS = {'p': 'rrp', 'v': 'rrp', 'm': 'vrcp'}
STDS = ['c++11', 'c++14', 'c++17']


def check(ctx):
    ctx.rule('R1', 'each given value is assigned to its parameter')
    ctx.rule('R2', 'no other parameter is changed')
    ctx.rule('R3', 'the given result is returned')
    ctx.rule('R4', 'the kept values are only read')
    ctx.rule('R5', 'a placeholder beyond the last parameter does not compile')
    for std in STDS:
        u = ctx.unit('set.cpp', ['root t ^w_t_'], std=std)
        for fn in u.get('t', 50):
            one(ctx, u, fn, std)
    range_check(ctx)
    ctx.need('R1', 300)
    ctx.need('R3', 60)


def one(ctx, u, fn, std):
    k = fn.name.split('_')
    shape, ix = k[2][0], [int(c) for c in k[4].rstrip('l')]
    inst = '%s %s' % (fn.name[4:], std)
    cs = fn.calls(DOIMPL)
    ctx.anchor(len(cs) == 1, '%s stores %d behaviours' % (fn.name, len(cs)))
    objs = objects(fn)
    p = fn.arg(cs[0], 1)
    ctx.anchor(p in objs, 'behaviour stored by %s not understood' % fn.name)
    fs = [f for f in objs[p][1].values() if f[0] != 'store']
    ctx.anchor(len(fs) == 1, 'behaviour stored by %s not understood' % fn.name)
    what = callable_of(fn, fs[0][1])
    ctx.anchor(what is not None and what[0] == 'closure', 'callable stored by %s not understood' % fn.name)
    body = body_of(u, 't', what[1])
    ctx.anchor(body is not None, 'body of the callable stored by %s not found (%s)' % (fn.name, what[1][:200]))
    kept = elements(fn, what[2])
    ctx.anchor(kept, 'values kept by %s not found' % fn.name)
    first = next(q['i'] if 'i' in q else n for n, q in enumerate(body.params) if q['nm'] == 'this') + 1
    result = None if shape == 'v' else 1
    low = 1 if shape == 'v' else 2
    kinds = KINDS[shape]
    writes = {}
    for x in body.order:
        i = body.ins[x]
        if i['op'] == 'store':
            t, s = body.arg(x, 1), body.arg(x, 0)
        elif i['op'] in ('call', 'invoke') and mm(cname(i), r'::operator='):
            t, s = body.arg(x, 0), body.arg(x, 1)
            if cname(i).endswith('&&)') or mm(cname(i), r'operator=\([^()]*&&\)'):
                e = element(body, s)
                if e and e[2] == 'kept':
                    ctx.fail('R4', inst, 'a kept value is moved to the parameter, so a second use assigns something else (%s)' % body.where(x))
        else:
            continue
        b = base_of(t)
        if b[0] != 'arg' or b[1] < first:
            if b[0] == 'arg' and b[2] == 'this':
                ctx.fail('R4', inst, 'using the stub changes a kept value (%s)' % body.where(x))
            continue
        n = b[1] - first + 1
        good = t == b if kinds[n - 1] in 'rvc' else t == ('*', b)
        e = element(body, s)
        src = kept.get(e[:2]) if e else None
        writes.setdefault(n, []).append((x, good, src))
    for j, n in enumerate(ix):
        ws = writes.pop(n, [])
        name = '%s parameter %d' % (inst, n)
        if not ws:
            ctx.fail('R1', name, 'the value given for parameter %d is never assigned (%s)' % (n, body.where()))
            continue
        x, good, src = ws[-1]
        ctx.require('R1', name, good and src == {low + j}, 'parameter %d is assigned %s (%s)' % (n, 'at the wrong place' if not good else 'the value given for another one' if src else 'something that was not given', body.where(x)))
        ctx.require('R1', name + ' always', body.must_pass_before(RET, [w[0] for w in ws]), 'parameter %d is only assigned on some paths (%s)' % (n, body.where(x)))
    for n in sorted(writes):
        ctx.fail('R2', '%s parameter %d' % (inst, n), 'parameter %d, which is not mentioned, is changed (%s)' % (n, body.where(writes[n][0][0])))
    moved(ctx, body, first, inst)
    if result is not None:
        returned(ctx, body, kept, result, inst)


def elements(fn, clo):
    """{(sub path, index): parameters the tuple element of the closure was made from}"""
    out = {}
    root = fn.local_addr(clo)
    todo, seen = [root[0]], set()
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        for y in fn.order:
            j = fn.ins[y]
            if j['op'] not in ('call', 'invoke') or not j['args']:
                continue
            k = fn.local_addr(j['args'][0])
            if not k or k[0] != r:
                continue
            n = cname(j)
            m = re.match(r'^std::tuple<.*>::tuple', n)
            if m and not is_copy_ctor(n):
                for e, a in enumerate(j['args'][1:]):
                    out[(k[1], e)] = origins(fn, a)
            elif is_copy_ctor(n) or mm(n, r'memcpy'):
                q = fn.local_addr(j['args'][1])
                if q:
                    todo.append(q[0])
    return out


def element(fn, p):
    """(sub path of the closure, index, 'kept'|'copy') for a path that is std::get<index>(tuple), else None"""
    if p[0] == '*':
        p = p[1]
    while p[0] == '.' and p[2] == 'value':
        p = p[1]
    if p[0] != 'call':
        return None
    i = fn.ins[p[1]]
    m = re.search(r'std::get<(\d+)ul', cname(i))
    if not m:
        return None
    t = source_tuple(fn, i['args'][0])
    return None if t is None else (t[0], int(m.group(1)), t[1])


def source_tuple(fn, o, seen=0):
    p = fn.path(o)
    if piece(fn, p) is not None:
        return piece(fn, p), 'copy' if seen else 'kept'
    la = fn.local_addr(o)
    if la is None or seen > 12:
        return None
    got = set()
    for y in fn.order:
        j = fn.ins[y]
        if j['op'] == 'store':
            k = fn.local_addr(j['args'][1])
            if k == la:
                s = fn.arg(y, 0)
                got.add((piece(fn, s[1]), 'copy') if s[0] == '*' and piece(fn, s[1]) is not None else None)
        elif j['op'] in ('call', 'invoke') and j['args'] and fn.local_addr(j['args'][0]) == la:
            n = cname(j)
            if is_copy_ctor(n) or mm(n, r'memcpy'):
                got.add(source_tuple(fn, j['args'][1], seen + 1))
    return got.pop() if len(got) == 1 else None


def moved(ctx, fn, first, inst):
    bad, par = [], []
    for x in fn.order:
        i = fn.ins[x]
        if i['op'] in ('call', 'invoke') and len(i['args']) > 1 and is_copy_ctor(cname(i)) and cname(i).endswith('&&)'):
            s = fn.arg(x, 1)
            e = element(fn, s)
            b = base_of(s)
            if e and e[2] == 'kept' or b[0] == 'arg' and b[2] == 'this':
                bad.append(x)
            if b[0] == 'arg' and b[1] >= first:
                par.append(x)
    ctx.require('R4', inst, not bad, 'a kept value is moved away, so a second use gives something else (%s)' % (bad and fn.where(bad[0])))
    ctx.require('R2', inst, not par, 'a parameter is moved away (%s)' % (par and fn.where(par[0])))


def returned(ctx, fn, kept, result, inst):
    got, at = set(), None
    for x in fn.order:
        i = fn.ins[x]
        if i['op'] == 'ret' and i['args']:
            e = element(fn, fn.arg(x, 0))
            got.add(e[:2] if e else None)
            at = x
        elif i['op'] in ('call', 'invoke') and i['args'] and 'p' in i['args'][0] and fn.params[i['args'][0]['p']].get('sret') and len(i['args']) > 1:
            e = element(fn, fn.arg(x, 1))
            got.add(e[:2] if e else None)
            at = x
    ok = len(got) == 1 and None not in got and kept.get(list(got)[0]) == {result}
    ctx.require('R3', inst, ok, 'the result is not the value given for it (%s)' % fn.where(at))


RANGE = '''#include <fakeit.hpp>
#include <string>
using namespace fakeit;
using namespace fakeit::placeholders;
struct I { virtual int f(int &, std::string &) = 0; virtual void v(int *) = 0; };
void w() {
    Mock<I> m;
    %s
}
'''
GOOD = ['When(Method(m, f)).ReturnAndSet(1, _1 <= 2);', 'When(Method(m, f)).ReturnAndSet(1, _2 <= std::string("a"));', 'When(Method(m, f)).AlwaysReturnAndSet(1, _2 <= std::string("a"), _1 <= 2);',
        'When(Method(m, v)).ReturnAndSet(_1 <= 2);', 'When(Method(m, v)).AlwaysReturnAndSet(_1 <= 2);']
BAD = ['When(Method(m, f)).ReturnAndSet(1, _3 <= 2);', 'When(Method(m, f)).AlwaysReturnAndSet(1, _3 <= 2);', 'When(Method(m, f)).ReturnAndSet(1, _1 <= 2, _3 <= 2);', 'When(Method(m, f)).ReturnAndSet(1, _3 <= 2, _1 <= 2);',
       'When(Method(m, f)).ReturnAndSet(1, _9 <= 2);', 'When(Method(m, v)).ReturnAndSet(_2 <= 2);', 'When(Method(m, v)).AlwaysReturnAndSet(_2 <= 2);', 'When(Method(m, v)).ReturnAndSet(_1 <= 2, _2 <= 3);']


def range_check(ctx):
    ps = [(t, comp, std, good) for std in STDS + ['c++20'] for comp in ('clang', 'gcc') for good, l in ((True, GOOD), (False, BAD)) for t in l]
    for (t, comp, std, good), (ok, err) in zip(ps, ctx.compile_all([(RANGE % t, comp, std) for t, comp, std, good in ps])):
        if good:
            ctx.anchor(ok, 'a placeholder in range does not compile (%s, %s, %s): %s' % (t, comp, std, err[:300]))
        else:
            ctx.require('R5', '%s %s %s' % (t, comp, std), not ok, 'a placeholder beyond the last parameter compiles with %s -std=%s: %s' % (comp, std, t))
