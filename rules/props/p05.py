"""The end of a stubbing statement is the destructor of one shared change object:
it is propagated with and without an exception in flight and must install the
statement never or exactly once. The counted handle around it is checked by
reference counting, every statement must create exactly one, and no other step of
a statement installs anything. Fake, Spy and assignment are typestate-checked to
append and install once for each method named."""
from own import *
from stubs import *

TECHNIQUE = 'sign-domain propagation of the exception-in-flight test, reference-count invariants of the shared handle, typestate (append, then install once) of every immediate statement'
NOTE = 'all paths of every statement kind instantiated by the witness, C++11 and C++17 forms of the in-flight test; storing the statement beyond the block is covered by the reference count'

CHANGE = 'fakeit::WhenFunctor::StubbingChange'
COMMIT = r'^fakeit::Xaction::commit\('
ADD = r'::Context::addMethodInvocationHandler\('
SEQ = r'^(void )?fakeit::ActionSequence<.*>::(?!ActionSequence|~)\w+\('
APPEND = r'^fakeit::(Stubbing|Spying)Context<.*>::appendAction\('
FLY = r'^std::uncaught_exceptions?\('
SPEC = SHARED_SPEC + ['root change ^fakeit::WhenFunctor::StubbingChange::', 'root fly ^w_l_flying$']
SPEC2 = ['root l ^w_l_(when|copy)', 'root n ^w_n_', 'over commit ^fakeit::Xaction::commit', 'over doimpl ^fakeit::MethodStubbingProgress<.*>::DoImpl', 'over append ^fakeit::(Stubbing|Spying)Context<.*>::appendAction',
         'opaque ^fakeit::smart_ptr<', 'opaque ^(.* )?fakeit::ActionSequence<.*>::']


def check(ctx):
    ctx.rule('R1', 'the end of a statement installs it exactly once when no exception is in flight and never otherwise')
    ctx.rule('R2', 'an exception in flight is recognised exactly when there is one')
    ctx.rule('R3', 'the last reference to a statement ends it, no other does')
    ctx.rule('R4', 'a statement has one shared end, bound to the method named; copies share it')
    ctx.rule('R5', 'installing adds the statement to the mock once')
    ctx.rule('R6', 'appending an action installs nothing')
    ctx.rule('R7', 'Fake, Spy and assignment append and install once for each method named, before they return')
    u = ctx.unit('stub.cpp', SPEC)
    flying(ctx, 'C++17', u.one('fly'))
    ending(ctx, u)
    old = ctx.unit('stub.cpp', SPEC, std='c++11')
    flying(ctx, 'C++11', old.one('fly'))
    w = ctx.unit('stub.cpp', SPEC2)
    for fn in w.get('l', 4):
        statement(ctx, fn)
    for fn in w.get('commit', 3):
        installs(ctx, fn)
    for lab in ('doimpl', 'append'):
        for fn in w.get(lab, 3):
            bad = fn.calls(COMMIT, ADD)
            ctx.require('R6', fn.short(), not bad, 'appending an action also installs the statement (%s)' % (bad and fn.where(bad[0])))
    for fn in w.get('n', 11):
        at_once(ctx, fn)
    shared_handle(ctx, 'R3', u, CHANGE)
    ctx.need('R4', 4)
    ctx.need('R5', 3)
    ctx.need('R6', 6)
    ctx.need('R7', 11)


def flying(ctx, name, fn):
    isv = lambda i: i['op'] in ('call', 'invoke') and mm(cname(i), FLY)
    ctx.anchor(fn.calls(FLY), 'the in-flight test asks the language runtime nothing')
    for sign, want in (('zero', 0), ('pos', 1)):
        atom = sign_atom(isv, sign)
        if name == 'C++11':
            inner = atom
            atom = lambda i, val: ('c', want) if isv(i) else inner(i, val)
        r = Cond(fn, atom).ret
        ctx.require('R2', '%s, %s' % (name, 'in flight' if want else 'none'), r == ('c', want), 'with %s exception in flight the test gives %s (%s)' % ('an' if want else 'no', r, fn.where()))


def ending(ctx, u):
    ds = [f for f in u.get('change', 2) if mm(f.name, r'::~StubbingChange\(\)$')]
    ctx.anchor(ds, 'end of a stubbing statement not found')
    for fn in ds:
        cs = set(fn.calls(COMMIT))
        ctx.anchor(cs, 'end of a stubbing statement installs nothing')
        isv = lambda i: i['op'] in ('call', 'invoke') and mm(cname(i), FLY)
        c = Cond(fn, sign_atom(isv, 'pos'), unwind=True)
        hit = [k for k in cs if c.reached(k)]
        ctx.require('R1', fn.short() + ' in flight', not hit, 'a statement is installed while an exception is in flight (%s)' % (hit and fn.where(hit[0])))
        c = Cond(fn, sign_atom(isv, 'zero'))

        def step(st, ev):
            if ev[0] == 'cond':
                v = c.val({'i': ev[1]})
                if isinstance(v, tuple) and v[0] == 'c' and bool(v[1] & 1) != bool(ev[2]):
                    return None
            if ev[0] == 'ins':
                if ev[1] in cs:
                    if st:
                        raise Violation('a statement is installed twice (%s)' % fn.where(ev[1]))
                    return 1
            if ev[0] == 'edge' and ev[2] == 'unwind':
                return None
            if ev[0] == 'exit' and ev[1] == RET and not st:
                raise Violation('a statement can end without being installed')
            return st
        ctx.sim('R1', fn, step, 0, instance=fn.short() + ' normally')
        for k in cs:
            fs = set(l[2] for l in path_leaves(fn.arg(k, 0)) if l[0] == 'field')
            ctx.require('R1', fn.short() + ' own', base_of(fn.arg(k, 0)) == ('arg', 0, 'this') and fs, 'another statement is installed (%s)' % fn.where(k))
    cc = [f for f in u.get('change') if mm(f.name, r'::StubbingChange\(')]
    for fn in cc:
        st = [k for k in fn.stores() if fn.arg(k, 1)[0] == '.' and not vtable_of(fn.ins[k]['args'][0])]
        ctx.require('R1', fn.short(), st and all(base_of(fn.arg(k, 0))[:2] == ('arg', 1) for k in st), 'the end of a statement is bound to something else than its method (%s)' % fn.where())


def statement(ctx, fn):
    """exactly one shared end per statement, copies share it, nothing leaks"""
    made = fn.calls(r'^fakeit::smart_ptr<%s>::smart_ptr\(%s\*\)' % (CHANGE, CHANGE))
    copied = fn.calls(r'^fakeit::smart_ptr<%s>::smart_ptr\(fakeit::smart_ptr' % CHANGE)
    freed = fn.calls(r'^fakeit::smart_ptr<%s>::~smart_ptr\(' % CHANGE)
    when = 'when' in fn.name
    ctx.anchor(made if when else made or copied, '%s has no shared end' % fn.name)
    M, C, D = set(made), set(copied), set(freed)
    bad = fn.calls(COMMIT, ADD)
    ctx.require('R4', fn.name + ' installs nothing', not bad, 'a statement is installed before its end (%s)' % (bad and fn.where(bad[0])))

    def step(st, ev):
        n, live = st
        if ev[0] == 'ins':
            if ev[1] in M:
                n, live = n + 1, live + 1
            if ev[1] in C:
                live += 1
            if ev[1] in D:
                live -= 1
            if live < 0:
                raise Violation('a statement is ended twice (%s)' % fn.where(ev[1]))
        if ev[0] == 'edge' and ev[2] == 'unwind' and not mm(cname(fn.ins[ev[1]]), r'^keep'):
            return None
        if ev[0] == 'exit':
            if live:
                raise Violation('a reference to a statement is never given up')
            if n != (1 if when else 0):
                raise Violation('a statement has %d ends' % n)
        return n, live
    ctx.sim('R4', fn, step, (0, 0), instance=fn.name)
    for k in C:
        ctx.require('R4', '%s shares' % fn.name, base_of(fn.arg(k, 1))[0] in ('arg', 'local'), 'a copy does not share the end of the original (%s)' % fn.where(k))
    objs = [p for p in (fn.arg(k, 1) for k in M)]
    for k in fn.stores():
        p, v = fn.arg(k, 1), fn.arg(k, 0)
        if vtable_of(fn.ins[k]['args'][0]) or p[0] != '.' and p not in objs:
            continue
        if base_of(p) in objs or base_of(p)[0] == 'local':
            if v[0] in ('const', 'global', 'gep0'):
                continue
            ctx.require('R4', '%s bound at %s' % (fn.name, fn.where(k)), base_of(v)[:2] == ('arg', 0), 'a statement is bound to something else than the method named (%s)' % fn.where(k))


def installs(ctx, fn):
    adds = set(fn.calls(ADD))
    ctx.anchor(adds, '%s adds nothing to the mock' % fn.short())
    later = set(k for k in fn.calls(r'^std::(__)?shared_ptr<fakeit::ActionSequence<.*>::(operator=|reset|swap)'))

    taken = set(k for k in fn.calls(r'^std::(__)?shared_ptr<.*>::(__)?shared_ptr(<.*>)?\(std::(__)?shared_ptr<fakeit::ActionSequence<') if fn.local_addr(fn.ins[k]['args'][0]) and not fn.local_addr(fn.ins[k]['args'][1]))

    def step(st, ev):
        n, new, held = st
        if ev[0] == 'ins':
            if ev[1] in taken and not new:
                held = 1
            if ev[1] in adds:
                if new and not held:
                    raise Violation('an empty list of actions is installed (%s)' % fn.where(ev[1]))
                if n:
                    raise Violation('installing adds the statement twice (%s)' % fn.where(ev[1]))
                n = 1
            if ev[1] in later and (n or held):
                new = 1
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'exit' and ev[1] == RET:
            if not n:
                raise Violation('installing a statement can add nothing to the mock')
            if not new:
                raise Violation('actions of a later statement are added to the one already installed')
        return n, new, held
    ctx.sim('R5', fn, step, (0, 0, 0))
    for k in adds:
        for a in fn.ins[k]['args'][1:]:
            la = fn.local_addr(a)
            src = fn.local_source(la[0], la[1], 0) if la else fn.path(a)
            ctx.require('R5', '%s hands over' % fn.short(), src is not None and base_of(src)[0] in ('arg', 'call'), 'what is added to the mock is not what the statement recorded (%s)' % fn.where(k))


def at_once(ctx, fn):
    if 'assign' in fn.name:
        app, com = fn.calls(SEQ), fn.calls(ADD)
        n, whose = 1, lambda k: 0
    else:
        app, com = fn.calls(APPEND), fn.calls(COMMIT)
        n, whose = len(fn.params), lambda k: base_of(fn.arg(k, 0))[1] if base_of(fn.arg(k, 0))[0] == 'arg' else -1
    ctx.anchor(app and com, '%s installs nothing' % fn.name)
    A, C = set(app), set(com)

    def step(st, ev):
        st = dict(st)
        if ev[0] == 'ins' and ev[1] in A | C:
            k = whose(ev[1])
            ph = st.get(k, 0)
            if ev[1] in A:
                if ph:
                    raise Violation('a second behaviour is appended (%s)' % fn.where(ev[1]))
                st[k] = 1
            else:
                if ph != 1:
                    raise Violation('a statement is installed %s (%s)' % ('twice' if ph else 'before its behaviour is appended', fn.where(ev[1])))
                st[k] = 2
        if ev[0] == 'edge' and ev[2] == 'unwind':
            return None
        if ev[0] == 'exit' and ev[1] == RET and st != {k: 2 for k in range(n)}:
            raise Violation('not every method named is installed')
        return tuple(sorted(st.items()))
    ctx.sim('R7', fn, step, (), instance=fn.name)
