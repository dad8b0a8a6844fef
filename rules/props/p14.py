"""For every way of giving a value the callable that is stored is found, and what
each of its parts was initialised with is classified: the value itself, an owned
copy, or only an address. The body of the callable must give back exactly that
part, by copy (by move for a move-only value, by identity for a reference result).
Expected values of matchers are classified in the same way."""
from stubs import *
from props.p12 import built, given as given_value, show

TECHNIQUE = 'ownership classification (value / owned / address) of everything a stored callable or matcher is initialised with, matched with what its body gives back'
NOTE = 'scalar, class, string, reference and move-only types of the witness stand for all; std::function, std::shared_ptr and copy constructors are trusted to copy'

SPEC = ['root s ^w_[sn]_']
DOIMPL = r'^fakeit::MethodStubbingProgress<.*>::DoImpl\('
ADDACT = r'^(void )?fakeit::ActionSequence<.*>::(?!ActionSequence|~)\w+\('
BYREF = {'rreturn1', 'rareturn1', 'assignr'}
MOVED = {'ureturn1'}
NOVALUE = {'return0', 'areturn0', 'vreturn0', 'vareturn0', 'vreturnq', 'vreturntimes'}


def check(ctx):
    ctx.rule('R1', 'a value given to Return, AlwaysReturn, Throw or assignment is kept by the stub itself')
    ctx.rule('R2', 'the stub gives back what it keeps and leaves it unchanged')
    ctx.rule('R3', 'a method returning a reference returns the very object given')
    ctx.rule('R4', 'a move-only value is kept by the stub and handed out by moving it')
    ctx.rule('R5', 'a matcher keeps its expected value itself')
    u = ctx.unit('stub.cpp', SPEC + ['opaque ^(.* )?fakeit::ActionSequence<.*>::'])
    n = 0
    for fn in u.get('s', 40):
        k = fn.name.split('_')[2]
        if mm(k, r'^v?(do|ado|set|aset)') or k in NOVALUE or k in ('set', 'aset', 'vset', 'vaset', 'assignf', 'assignvoid', 'assigndtor') or mm(k, r'^(fake|spy)'):
            continue
        calls = fn.calls(DOIMPL, ADDACT)
        ctx.anchor(calls, '%s stores no behaviour' % fn.name)
        objs = objects(fn)
        for c in calls:
            p = fn.arg(c, 1)
            ctx.anchor(p in objs, 'behaviour stored at %s not understood' % fn.where(c))
            cls, fields = objs[p]
            for nm, (how, op, y) in sorted(fields.items()):
                if how == 'store' or op is None:
                    continue
                what = callable_of(fn, op)
                ctx.anchor(what is not None and what[0] == 'closure', 'callable stored at %s not understood' % fn.where(c))
                body = body_of(u, 's', what[1])
                ctx.anchor(body is not None, 'body of the callable stored at %s not found (%s in %s)' % (fn.where(c), what[1], fn.name))
                kept(ctx, fn, k, c, what[2], body)
                n += 1
    ctx.anchor(n >= 25, 'only %d stored values found' % n)
    expected(ctx)
    ctx.need('R1', 20)
    ctx.need('R2', 20)
    ctx.need('R3', 3)
    ctx.need('R4', 1)
    ctx.need('R5', 60)


def kept(ctx, fn, k, c, clo, body):
    inst = '%s at %s' % (k, fn.where(c))
    gs = gives(body)
    ctx.anchor(gs, 'what %s gives back was not found' % body.short())
    for how, sub, typ, x in gs:
        if sub is None or how[0] == '?':
            ctx.fail('R2', inst, 'the stub gives back something it does not keep (%s)' % body.where(x))
            continue
        got = content(fn, clo, sub)
        throws = 'throw' in k
        if k in BYREF:
            ctx.require('R3', inst, how == 'value' and got is not None and got[0] == 'address', 'the reference given back is not the object given but %s (%s)' % (say(got), body.where(x)))
        elif k in MOVED:
            ctx.require('R4', inst, how in ('move of what is pointed to', 'move') and got is not None and got[0] in ('owned', 'value'), 'a move-only value is kept as %s and given back by %s (%s)' % (say(got), how, body.where(x)))
        else:
            ctx.require('R1', inst, got is not None and got[0] == ('owned' if mm(how, 'pointed') else 'value'), 'the stub keeps %s of the value given (%s)' % (say(got), fn.where(c)))
            ctx.require('R2', inst, mm(how, '^(value|copy)'), 'the value kept is given away by %s, so a second use gives something else (%s)' % (how, body.where(x)))
            ctx.require('R2', inst + ' kind', bool(typ) == throws, 'a value is given back in the wrong way (%s)' % body.where(x))
            if throws:
                want = given_type(fn, got)
                ctx.require('R2', inst + ' type', want is None or typ == want, 'the exception thrown is a %s instead of a %s (%s)' % (typ, want, body.where(x)))
    w = [x for x in body.stores() if piece_rooted(body, body.arg(x, 1))]
    ctx.require('R2', inst + ' unchanged', not w, 'using the stub changes what it keeps (%s)' % (w and body.where(w[0])))


def piece_rooted(fn, p):
    b = base_of(p)
    return b[0] == 'arg' and b[2] == 'this'


def given_type(fn, got):
    if got is None or not isinstance(got[1], int):
        return None
    return {'e': 'Err', 'g': 'int'}.get(fn.params[got[1]]['nm'])


def say(got):
    return {'address': 'only the address', 'value': 'a copy', 'owned': 'an owned copy'}.get(got[0], got[0]) if got else 'something else'


def expected(ctx):
    n = matchers(ctx, ctx.unit('args.cpp', ['root w ^w_(m|a|c)_', 'opaque ^(Key|Obj)::', 'opaque ^operator[=!<>]']), 80)
    n += matchers(ctx, ctx.unit('keep.cpp', ['root w ^w_(m|c)_']), 9)
    ctx.anchor(n >= 90, 'only %d matchers built' % n)


def matchers(ctx, u, least):
    n = 0
    for w in u.get('w', least):
        for cls, fields in built(ctx, w):
            bad = [f[1] for f, p in fields.items() if p[0] == 'arg' and w.params[p[1]]['ty'] == 'ptr' or p[0] == 'local']
            ctx.require('R5', '%s %s' % (w.name, cls[-40:]), not bad, 'the matcher keeps only the address of its expected value in %s (%s)' % (bad, w.where()))
            n += 1
    return n
