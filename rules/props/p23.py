"""Qualifiers and overload selectors: which method each selector accepts is a compile-time constant
read for every selector on every qualifier, and the method a stub is made for is the constant stored
in it, compared with the address of the method named by plain C++."""
from common import *
from stubs import objects

TECHNIQUE = 'type-level encoding (which selector accepts which method, as compile-time constants) and constant propagation in the compiler IR (the method a stub is made for against the method named)'
NOTE = 'every qualifier the library lists and every selector macro, on overload sets that differ in qualifier, in parameter types and in both; what happens after the stub is made does not depend on the qualifier because all stubs have the same type'
OWN = {'OverloadedMethod': 'Plain', 'ConstOverloadedMethod': 'Const', 'RefOverloadedMethod': 'Ref', 'ConstRefOverloadedMethod': 'CRef', 'RValRefOverloadedMethod': 'RVal', 'ConstRValRefOverloadedMethod': 'CRVal'}
ALL = ['Plain', 'Const', 'Vol', 'CVol', 'Ref', 'CRef', 'RVal', 'CRVal']


def check(ctx):
    ctx.rule('R1', 'each selector accepts the method with its own qualifier and signature and no other; Method accepts every qualifier')
    ctx.rule('R2', 'the stub has the same type for every qualifier')
    ctx.rule('R3', 'the stub is made for the very method that was named')
    ctx.rule('R4', 'the stub is of the same class for every qualifier, and for the mock it was asked of')
    for std in ('c++11', 'c++17', 'c++20'):
        matrix(ctx, std)
    u = ctx.unit('qual.cpp', ['root s ^w_s_', 'root p ^w_p_', 'opaque ::setMethodDetails'])
    named = {}
    for f in u.get('p', 30):
        st = [i for i in f.ins.values() if i['op'] == 'store' and f.path(i['args'][1])[:2] == ('arg', 0)]
        ctx.anchor(len(st) == 1 and pointer(st[0]['args'][0]) is not None, '%s: address of the method not understood' % f.name)
        named[f.name[4:]] = pointer(st[0]['args'][0])
    ctx.anchor(len(set(named.values())) == len(named), 'methods are not told apart')
    like = {}
    for f in u.get('s', 30):
        made(ctx, f, f.name[4:], named, like)
    for x, n in (('R1', 200), ('R2', 20), ('R3', 30), ('R4', 30)):
        ctx.need(x, n)


def matrix(ctx, std):
    u = ctx.unit('select.cpp', ['root t ^w_t_', 'root k ^w_k_'], std=std)
    val = {}
    for f in u.get('t', 80) + u.get('k', 80):
        r = [i for i in f.ins.values() if i['op'] == 'ret']
        ctx.anchor(len(r) == 1 and 'c' in r[0]['args'][0], '%s is not a constant' % f.name)
        val[f.name[2:]] = r[0]['args'][0]['c'] != 0
    for n, v in sorted(val.items()):
        if not n.startswith('t_'):
            continue
        sel, cls = n[2:].split('_on_')
        want = cls in ALL if sel == 'Method' else OWN[sel] == cls
        inst = '%s on %s (%s)' % (sel, cls, std)
        ctx.require('R1', inst, v == want, 'witness/select.cpp: %s %s the method of struct %s' % (sel, 'accepts' if v else 'does not accept', cls))
        if v and want:
            ctx.require('R2', inst, val['k_' + n[2:]], 'witness/select.cpp: %s gives another type of stub for the method of struct %s' % (sel, cls))


def pointer(o):
    if 'k' in o and all('c' in a for a in o['args']):
        return tuple(a['c'] for a in o['args'])
    if 'zero' in o:
        return (0, 0)
    return None


def made(ctx, f, name, named, like):
    ours = {p: c for p, (c, fields) in objects(f).items() if mm(c, r'^fakeit::MockImpl<Q>::\w+<')}
    if not ours:
        ctx.fail('R4', name, '%s: no stub is made' % f.where())
        return
    ctx.anchor(len(ours) == 1, '%s: %d stubs made' % (f.name, len(ours)))
    (p, cls), = ours.items()
    words = {}
    mock = False
    for x in f.order:
        i = f.ins[x]
        if i['op'] != 'store':
            continue
        q = f.arg(x, 1)
        if base_of(q) != base_of(p):
            continue
        v = i['args'][0]
        if pointer(v) is not None:
            words[x] = pointer(v)
        elif base_of(f.path(v))[:2] == ('arg', 1):
            mock = True
        elif i.get('sz') == 16 or isinstance(f.val(v), dict) and f.val(v).get('ty') == '{ i64, i64 }':
            ctx.fail('R3', name, '%s: the method of the stub is %s, not the one named' % (f.where(x), render(f.path(v))))
    ctx.anchor(words or any(b[0] == 'R3' and b[1] == name for b in ctx.bad), '%s: no method kept' % f.name)
    for x, w in words.items():
        ctx.require('R3', name, w == named[name], '%s: the stub is made for %s' % (f.where(x), next(('the method named by ' + k for k, v in named.items() if v == w), 'another method')))
    ctx.require('R4', name + ', mock', mock, '%s: the stub does not keep the mock it was asked of' % f.where())
    num = re.search(r'<(-?[0-9]+), ', cls[cls.rindex('::'):])
    ctx.anchor(num is not None, '%s: %s has no number' % (f.name, cls))
    want = given_number(f, name)
    if want:
        ctx.require('R4', name + ', number', num.group(1) == want, '%s: the stub has number %s, asked for was %s' % (f.where(), num.group(1), want))
    else:
        other = like.setdefault(('number', num.group(1)), name)
        ctx.require('R4', name + ', number', other == name, '%s: the stub has the number of the one made by %s' % (f.where(), other))
    short = re.sub(r'<-?[0-9]+, ', '<', cls)
    args = short[short.index('<', short.rindex('::')):]
    ctx.require('R4', name, like.setdefault(args, short) == short, '%s: the stub is a %s, elsewhere a %s' % (f.where(), short, like[args]))


def given_number(f, name):
    """the number the witness gives itself (the selector macros count)"""
    return '41' if name in ('n', 'c', 'v', 'cv', 'r', 'cr', 'x', 'cx', 'b', 'bc', 'z', 'zc') else None
