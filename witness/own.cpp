// One function per way of building, replacing, copying and committing statements, and for
// stubbed data members; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct Obj { int k; std::string s; Obj(); Obj(int, const std::string &); Obj(const Obj &); ~Obj(); };
struct I {
    virtual ~I() {}
    virtual int f(int) = 0;
    virtual void p() = 0;
    virtual int two(int, std::string) = 0;
    int number;
    Obj obj;
};
template class fakeit::Mock<I>;
template struct fakeit::RecordedMethodBody<int, int>;

typedef MockingContext<int, int> F;
typedef MockingContext<void> P;
typedef MockingContext<int, int, std::string> T;

extern "C" F w_o_ctx(Mock<I> &m) { return m.stub<1>(&I::f); }
extern "C" P w_o_vctx(Mock<I> &m) { return m.stub<2>(&I::p); }
extern "C" DtorMockingContext w_o_dctx(Mock<I> &m) { return m.dtor(); }
extern "C" void w_o_using(F &c, int &a) { c.Using(a); }
extern "C" void w_o_call(F &c, int &a) { c(a); }
extern "C" void w_o_any(T &c, std::string &b) { c.Using(_, Eq(b)); }
extern "C" void w_o_strict(T &c, int &a, std::string &b) { c.Using(Gt(a), b); }
extern "C" void w_o_matching(F &c, std::function<bool(int &)> &g) { c.Matching(g); }
extern "C" void w_o_callmatch(F &c, std::function<bool(int &)> &g) { c(g); }
extern "C" void w_o_replace(F &c, int &a, int &b) { c.Using(a).Using(b); }
extern "C" void w_o_assign(F &c, std::function<int(int &)> &g) { c = g; }
extern "C" void w_o_assignvalue(F &c, int &v) { c = v; }
extern "C" void w_o_vassign(P &c, std::function<void()> &g) { c = g; }
extern "C" F w_o_copy(const F &c) { return c; }
extern "C" F w_o_move(F &c) { return std::move(c); }
extern "C" WhenFunctor::MethodProgress<int, int> w_o_when(F &c) { return When(c); }
extern "C" WhenFunctor::MethodProgress<int, int> w_o_copywhen(const WhenFunctor::MethodProgress<int, int> &c) { return c; }
extern "C" void w_o_fake(StubbingContext<int, int> &c) { Fake(c); }
extern "C" void w_o_vfake(StubbingContext<void> &c) { Fake(c); }
extern "C" void w_o_spy(SpyingContext<int, int> &c) { Spy(c); }
extern "C" void w_o_spywv(SpyingContext<int, int> &c) { SpyWithoutVerify(c); }
extern "C" SequenceVerificationProgress w_o_verify(const Sequence &a, const Sequence &b) { return Verify(a, b); }
extern "C" SequenceVerificationProgress w_o_unverified(const Sequence &a) { return Unverified.Verify(a); }
extern "C" UsingProgress w_o_usings(const ActualInvocationsSource &a) { return Using(a); }
extern "C" VerifyNoOtherInvocationsVerificationProgress w_o_noother(const ActualInvocationsSource &a) { return VerifyNoOtherInvocations(a); }
extern "C" void w_o_member0(Mock<I> &m) { m.Stub(&I::number); }
extern "C" void w_o_member1(Mock<I> &m, int &a) { m.Stub(&I::number, a); }
extern "C" void w_o_member2(Mock<I> &m, int &a, std::string &b) { m.Stub(&I::obj, a, b); }
extern "C" void w_o_member3(Mock<I> &m, Obj &a) { m.Stub(&I::obj, a); }

extern "C" void w_use(I *inst, I &i) {
    Mock<I> m, n(*inst);
    When(Method(m, f).Using(1)).Return(1, 2).AlwaysReturn(3);
    When(Method(m, two)).Do([](int, std::string) { return 1; });
    When(Method(m, p)).Throw(1);
    When(Dtor(m)).Do([]() {});
    Fake(Method(m, p));
    Spy(Method(n, f));
    Verify(Method(m, f));
    m.Reset();
    i.f(1);
}

// where the members are
extern "C" void *w_at_number(I *i) { return &i->number; }
extern "C" void *w_at_obj(I *i) { return &i->obj; }
struct Held { int k; ~Held(); };
extern "C" void w_handles(smart_ptr<Held> &a, smart_ptr<Held> &b, Held *h) { a = b; smart_ptr<Held> c(h), d(c); *c; }
