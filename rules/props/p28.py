"""Compile-fail witnesses: every unsupported use is compiled next to a supported use
that differs from it only in the type at fault; the supported one must be accepted and
the unsupported one rejected. What cannot be rejected at compile time (stubbing a
destructor that is not virtual) is decided on the lowered statement: it can only be
left by the dedicated exception. Which exceptions standard handlers catch is read off
the type information the thrown objects carry."""
from common import *

TECHNIQUE = 'compile-fail witnesses with accepted counterparts (g++ and clang++); exit and thrown-type analysis over the lowered statements; public-base relation from the emitted type information'
NOTE = 'every matcher, argument position and statement form of the witness list, accepted and rejected; every path of the destructor statements and of unexpected calls'

PRE = r'''
#include "fakeit.hpp"
#include <memory>
#include <string>
using namespace fakeit;
struct Opaque { int v; };
struct OnlyEq { int v; bool operator==(const OnlyEq &o) const { return v == o.v; } };
struct OnlyLt { int v; bool operator<(const OnlyLt &o) const { return v < o.v; } };
struct Ordered { int v; bool operator==(const Ordered &o) const { return v == o.v; } bool operator!=(const Ordered &o) const { return v != o.v; }
    bool operator<(const Ordered &o) const { return v < o.v; } bool operator<=(const Ordered &o) const { return v <= o.v; }
    bool operator>(const Ordered &o) const { return v > o.v; } bool operator>=(const Ordered &o) const { return v >= o.v; } };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly &&); };
struct Face { virtual ~Face() {} int data; std::string text; static int shared;
    virtual int one(int) = 0; virtual int text1(std::string) = 0; virtual int cstr(const char *) = 0; virtual int ptr(int *) = 0; virtual int real(double) = 0;
    virtual int opaque(Opaque) = 0; virtual int eq(OnlyEq) = 0; virtual int lt(OnlyLt) = 0; virtual int ord(Ordered) = 0;
    virtual int three(int, std::string, Ordered) = 0; virtual int ref(const Opaque &) = 0;
    virtual int move1(std::unique_ptr<int>) = 0; virtual int move2(int, std::unique_ptr<int>) = 0; virtual int move3(MoveOnly, int) = 0; virtual void move4(int, int, MoveOnly) = 0;
    virtual int vec(std::vector<std::unique_ptr<int>>) = 0; virtual int plain(int, std::string) = 0; virtual int none() = 0; virtual int lref(std::unique_ptr<int> &) = 0; virtual int ivec(std::vector<int>) = 0; };
struct Other { virtual ~Other() {} int data; virtual int one(int) = 0; };
struct Flat { int f(int); int data; };
struct FlatBase : Flat { int g(int); };
struct A { virtual int f(int) = 0; virtual ~A() {} };
struct B { virtual int g(int) = 0; virtual ~B() {} };
struct PlainBase { int n; };
struct Single : A { virtual int h() = 0; };
struct Chain : Single { virtual int i() = 0; };
class Hidden : A { public: virtual int h() = 0; };
struct Both : A, B {};
struct BothPlain : A, PlainBase {};
struct Deep : Both { virtual int h() = 0; };
struct Deeper : Deep {};
struct Virt : virtual A { virtual int h() = 0; };
struct VirtDeep : Virt { virtual int i() = 0; };
struct VirtBoth : virtual A, virtual B {};
'''


def body(s):
    return 'void use(Mock<Face> &m, Face &obj) { (void) m; (void) obj; %s; }\n' % s


USES = []


def use(rid, what, good, bad, compilers=('gcc', 'clang')):
    USES.append((rid, what, good, bad, compilers))


# class kinds
for t in ('Single', 'Chain', 'Face', 'A', 'Hidden'):
    use('R1', 'mock of a class with methods to override', 'Mock<%s> x' % t, [])
use('R1', 'mock of a class without virtual methods', 'Mock<A> x', ['Mock<Flat> x', 'Mock<FlatBase> x', 'Mock<PlainBase> x', 'Mock<std::string> x'])
use('R1', 'mock around an object without virtual methods', 'Single *o = nullptr; Mock<Single> x(*o)', ['Flat *o = nullptr; Mock<Flat> x(*o)', 'FlatBase *o = nullptr; Mock<FlatBase> x(*o)'])
use('R2', 'mock of a class with several bases', 'Mock<Chain> x', ['Mock<Both> x', 'Mock<BothPlain> x', 'Mock<Deep> x', 'Mock<Deeper> x'], ('gcc',))
use('R2', 'mock of a class with a virtual base', 'Mock<Chain> x', ['Mock<Virt> x', 'Mock<VirtDeep> x', 'Mock<VirtBoth> x'], ('gcc',))
use('R2', 'mock around an object with several or virtual bases', 'Chain *o = nullptr; Mock<Chain> x(*o)', ['Deep *o = nullptr; Mock<Deep> x(*o)', 'VirtDeep *o = nullptr; Mock<VirtDeep> x(*o)'], ('gcc',))
use('R2', 'stubbing a method inherited from a virtual base', 'Mock<Single> x; Fake(Method(x, f))', ['Mock<Virt> x; Fake(Method(x, f))'])
# spying
for g in ('plain', 'none', 'three', 'lref', 'ivec'):
    use('R3', 'spy with copying', 'Spy(Method(m, %s))' % g, [])
use('R3', 'spy with copying of move-only arguments', 'Spy(Method(m, plain))', ['Spy(Method(m, %s))' % x for x in ('move1', 'move2', 'move3', 'move4', 'vec')])
use('R3', 'spy with copying of several methods, one with move-only arguments', 'Spy(Method(m, plain), Method(m, one))', ['Spy(Method(m, plain), Method(m, move1))', 'Spy(Method(m, move2), Method(m, plain))'])
for x in ('move1', 'move2', 'move3', 'move4', 'vec'):
    use('R3', 'spy without recording takes move-only arguments', 'SpyWithoutVerify(Method(m, %s))' % x, [])
# matching
ORD = ('Eq', 'Ne', 'Gt', 'Ge', 'Lt', 'Le')
for q in ORD:
    use('R4', 'matching with %s' % q, 'Fake(Method(m, ord).Using(%s(Ordered())))' % q, ['Fake(Method(m, opaque).Using(%s(Opaque())))' % q, 'Fake(Method(m, %s).Using(%s))' % (('lt', q + '(OnlyLt())') if q != 'Lt' else ('eq', q + '(OnlyEq())')),
                                                                                              'Fake(Method(m, text1).Using(%s(5)))' % q, 'Fake(Method(m, one).Using(%s(std::string())))' % q])
use('R4', 'matching by value', 'Fake(Method(m, ord).Using(Ordered()))', ['Fake(Method(m, opaque).Using(Opaque()))', 'Fake(Method(m, one).Using(std::string("x")))', 'Fake(Method(m, one).Using(Opaque()))', 'Fake(Method(m, ord).Using(5))', 'Fake(Method(m, ptr).Using(Ordered()))', 'Fake(Method(m, lt).Using(OnlyLt()))'])
use('R4', 'matching by call', 'Fake(Method(m, ord)(Ordered()))', ['Fake(Method(m, opaque)(Opaque()))', 'Fake(Method(m, one)(std::string("x")))', 'Fake(Method(m, ord)(5))'])
use('R4', 'matching in a verification', 'Verify(Method(m, ord).Using(Ordered()))', ['Verify(Method(m, opaque).Using(Opaque()))', 'Verify(Method(m, one).Using(std::string("x")))', 'Verify(Method(m, ref).Using(Opaque()))'])
use('R4', 'matching of a later argument', 'Fake(Method(m, three).Using(1, "a", Ordered()))', ['Fake(Method(m, three).Using(1, Opaque(), Ordered()))', 'Fake(Method(m, three).Using(1, "a", std::string("b")))', 'Fake(Method(m, three).Using(1, Gt(7), Ordered()))', 'Fake(Method(m, three).Using(Any(), Any(), Eq(Opaque())))'])
use('R4', 'matching of another number of arguments', 'Fake(Method(m, three).Using(_, _, _))', ['Fake(Method(m, three).Using(_, _))', 'Fake(Method(m, three).Using(_, _, _, _))', 'Fake(Method(m, one).Using())'])
for q in ('StrEq', 'StrNe', 'StrGt', 'StrGe', 'StrLt', 'StrLe'):
    use('R4', 'matching with %s' % q, 'Fake(Method(m, cstr).Using(%s("x")))' % q, ['Fake(Method(m, one).Using(%s("x")))' % q, 'Fake(Method(m, ptr).Using(%s("x")))' % q])
use('R4', 'matching with ApproxEq', 'Fake(Method(m, real).Using(ApproxEq(1.0, 0.1)))', ['Fake(Method(m, text1).Using(ApproxEq(1.0, 0.1)))', 'Fake(Method(m, ord).Using(ApproxEq(1.0, 0.1)))'])
for s in ('Fake(Method(m, opaque).Using(_))', 'Fake(Method(m, opaque).Using(Any()))', 'Fake(Method(m, opaque).Matching([](const Opaque &) { return true; }))', 'Fake(Method(m, text1).Using("x"))', 'Fake(Method(m, eq).Using(OnlyEq()))', 'Fake(Method(m, lt).Using(Lt(OnlyLt())))'):
    use('R4', 'matching that needs no more than it uses', s, [])
# data members
use('R5', 'stubbing a data member', 'm.Stub(&Face::data)', ['m.Stub(&Other::data)', 'm.Stub(&Face::shared)', 'm.Stub(&Face::one)', 'int n; m.Stub(&n)', 'm.Stub(&Flat::data)'])
use('R5', 'stubbing a data member with a value', 'm.Stub(&Face::data, 5)', ['m.Stub(&Other::data, 5)', 'm.Stub(&Face::data, Opaque())', 'm.Stub(&Face::shared, 5)'])

DT = ['root dt ^w_dt_.*&\\)$', 'root ok ^w_okdt_.*&\\)$'] + ['root %s ^fakeit::MockImpl<%s>::(MethodMockingContextBase<void>|DtorMockingContextImpl)::[A-Za-z]+\\(' % x for x in (('bare', 'Bare'), ('good', 'Guarded'), ('good', 'Late'))]
UN = ['over un ^fakeit::MethodInvocationHandler<.*>::handleMethodInvocation', 'root un ^fakeit::MockImpl<.*>::unmocked\\(', 'opaque ^fakeit::FakeitContext::(handle|format)\\(', 'opaque ::handle\\(', 'opaque ^std::(stable_)?sort<']
NODTOR = 'fakeit::NoVirtualDtor'
STD = 'std::exception'


def check(ctx):
    ctx.rule('R1', 'a class without virtual methods cannot be mocked')
    ctx.rule('R2', 'a class with several bases or a virtual one cannot be mocked where the compiler shows them')
    ctx.rule('R3', 'spying with copying is refused for move-only arguments')
    ctx.rule('R4', 'values that cannot be compared or converted are refused as matchers')
    ctx.rule('R5', 'only data members of the mocked class can be stubbed')
    ctx.rule('R6', 'stubbing a destructor that is not virtual is left by the dedicated exception')
    ctx.rule('R7', 'an exception for an unexpected call is no standard exception')
    exceptions(ctx)
    destructors(ctx)
    probes = {}
    for rid, what, good, bad, comps in USES:
        for c in comps:
            for k, std in enumerate(('c++17', 'c++11') if c == 'gcc' else ('c++20',)):
                for s, w in [(good, True)] + [(b, False) for b in bad]:
                    if k and w:
                        continue
                    probes[(s, c, std)] = (rid, what, w)
    keys = list(probes)
    res = dict(zip(keys, ctx.compile_all([(body(s), c, std) for s, c, std in keys], PRE)))
    for (s, c, std), (rid, what, w) in probes.items():
        ok, err = res[(s, c, std)]
        inst = '%s, %s %s: %s' % (what, c, std, s)
        if w:
            ctx.anchor(ok, 'the supported use `%s` does not compile (%s): %s' % (s, c, first_error(err)))
            ctx.ok(rid, inst + ' (accepted)')
        else:
            ctx.require(rid, inst, not ok, 'unsupported use compiles with %s -std=%s: `%s`' % (c, std, s))
    ctx.need('R1', 10)
    ctx.need('R2', 10)
    ctx.need('R3', 20)
    ctx.need('R4', 80)
    ctx.need('R5', 10)
    ctx.need('R6', 5)
    ctx.need('R7', 4)


def first_error(err):
    for l in err.split('\n'):
        if 'error' in l:
            return l
    return err[:200]


def ancestors(u, t):
    out, work = set(), [t]
    while work:
        for b in u.bases.get(work.pop(), []):
            if b not in out:
                out.add(b)
                work.append(b)
    return out


def standard(types):
    """a class of namespace std among them: the exception classes there all derive from std::exception"""
    return any(t.startswith('std::') for t in types)


def leaves_by(u, f, refuses=()):
    """every way to leave f: {('returns', after a refusal or not)} and the types thrown; an exception not thrown here counts only after a refusing call"""
    out = set()

    def step(st, ev):
        if ev[0] == 'ins':
            i = f.ins[ev[1]]
            if i['op'] in ('call', 'invoke') and cname(i) == '__cxa_throw':
                return ('thrown', throw_type(i), f.where(ev[1]))
            if i['op'] == 'call' and refuser(cname(i)) in refuses and st[0] != 'thrown':
                out.add(('thrown', NODTOR, f.where(ev[1]), EXC))
                return None
        elif ev[0] == 'edge':
            i = f.ins[ev[1]]
            n = cname(i)
            if refuser(n) in refuses and st[0] != 'thrown':
                # such a call never completes
                return ('thrown', NODTOR, f.where(ev[1])) if ev[2] == 'unwind' else None
            if ev[2] == 'unwind' and n != '__cxa_throw' and st[0] != 'thrown':
                return None
        elif ev[0] == 'exit':
            out.add((st[0],) + tuple(st[1:]) + (ev[1],))
        return st
    s = Sim(f, step, ('start',))
    s.run()
    return out, s


def refuser(n):
    m = re.match(r'^.*::(\w+)\(', n or '')
    return m and m.group(1)


def destructors(ctx):
    u = ctx.unit('dtor.cpp', DT)
    refuses = set()
    more = True
    while more:
        more = False
        for f in u.get('bare', 3):
            if refuser(f.name) in refuses:
                continue
            out, s = leaves_by(u, f, refuses)
            ctx.stats['automaton_states'] += s.visited
            if out and all(o[0] == 'thrown' and o[-1] == EXC and NODTOR in {o[1]} | ancestors(u, o[1]) for o in out):
                refuses.add(refuser(f.name))
                more = True
    if not refuses:
        ctx.fail('R6', 'destructor requests', '%s: no request about a destructor that is not virtual is refused with the dedicated exception' % u.get('bare', 1)[0].where())
        return
    for n in sorted(refuses):
        ctx.ok('R6', 'every path of %s throws' % n)
    for f in u.get('dt', 4):
        out, s = leaves_by(u, f, refuses)
        ctx.stats['automaton_states'] += s.visited
        inst = re.sub(r'\(.*', '', f.name)
        done = [o for o in out if o[0] == 'start' and o[-1] == RET]
        kept = [o for o in out if o[0] == 'thrown' and o[-1] == RET]
        other = [o for o in out if o[0] == 'thrown' and NODTOR not in {o[1]} | ancestors(u, o[1])]
        ctx.require('R6', inst, not done and not kept and not other and out, '%s: %s' % (f.where(), 'the statement completes although the destructor is not virtual' if done else 'the exception does not leave the statement' if kept else '%s is thrown instead of the dedicated exception' % (other[0][1] if other else 'nothing')))
    for f in u.get('ok', 2):
        bad = [x for x in f.order if cname(f.ins[x]) == '__cxa_throw' and throw_type(f.ins[x]) == NODTOR]
        ctx.require('R6', re.sub(r'\(.*', '', f.name), not bad, '%s: the exception is thrown although the destructor is virtual' % (f.where(bad[0]) if bad else ''))
    for f in u.get('good', 3):
        bad = [x for x in f.order if cname(f.ins[x]) == '__cxa_throw' and throw_type(f.ins[x]) == NODTOR]
        ctx.require('R6', 'virtual destructor, ' + refuser(f.name), not bad, '%s: the exception is thrown although the destructor is virtual' % (f.where(bad[0]) if bad else ''))


def exceptions(ctx):
    u = ctx.unit('dtor.cpp', UN)
    n = 0
    for f in u.get('un', 2):
        for x in f.order:
            i = f.ins[x]
            if i['op'] in ('call', 'invoke') and cname(i) == '__cxa_throw':
                t = throw_type(i)
                n += 1
                up = ancestors(u, t) | {t}
                ctx.anchor(t in u.bases or standard(up), 'type information of %s not found' % t)
                ctx.require('R7', '%s, %s' % (f.short(), f.where(x)), not standard(up), '%s: the %s thrown for an unexpected call is a %s' % (f.where(x), t, STD))
    ctx.anchor(n >= 2, 'no exception for unexpected calls found')
    for t in u.bases:
        if mm(t, r'UnexpectedMethodCallException$'):
            ctx.require('R7', t, not standard(ancestors(u, t)), '%s is derived from %s' % (t, STD))
