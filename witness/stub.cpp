// One function per way of giving a behaviour; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <memory>
#include <string>
using namespace fakeit;

struct Err { int c; std::string s; Err(const Err &); ~Err(); };
struct Val { int c; std::string s; Val(); Val(const Val &); ~Val(); };
using F = MethodStubbingProgress<int, int>;              // int f(int)
using S = MethodStubbingProgress<std::string, const std::string &, int>;
using O = MethodStubbingProgress<Val, int, int>;
using V = MethodStubbingProgress<void, int>;
using R = MethodStubbingProgress<int &, int>;
using FR = MethodStubbingProgress<int, int &>;
using VR = MethodStubbingProgress<void, int &>;
using U = MethodStubbingProgress<std::unique_ptr<int>, int>;
using Fun = std::function<int(int &)>;
using VFun = std::function<void(int &)>;

extern "C" void w_s_return1(F &p, int &a) { p.Return(a); }
extern "C" void w_s_return0(F &p) { p.Return(); }
extern "C" void w_s_return3(F &p, int &a, int &b, int &c) { p.Return(a, b, c); }
extern "C" void w_s_returnchain(F &p, int &a, int &b) { p.Return(a).Return(b); }
extern "C" void w_s_returnq(F &p, const Quantifier<int> &q) { p.Return(q); }
extern "C" void w_s_returntimes(F &p, int &a) { p.Return(3_Times(a)); }
extern "C" void w_s_returnmix(F &p, int &a, const Quantifier<int> &q, int &b) { p.Return(a, q, b); }
extern "C" void w_s_areturn1(F &p, int &a) { p.AlwaysReturn(a); }
extern "C" void w_s_areturn0(F &p) { p.AlwaysReturn(); }
extern "C" void w_s_throw1(F &p, Err &e) { p.Throw(e); }
extern "C" void w_s_throw2(F &p, Err &e, int &g) { p.Throw(e, g); }
extern "C" void w_s_throwq(F &p, const Quantifier<Err> &q) { p.Throw(q); }
extern "C" void w_s_athrow(F &p, Err &e) { p.AlwaysThrow(e); }
extern "C" void w_s_do1(F &p, Fun &f) { p.Do(f); }
extern "C" void w_s_do2(F &p, Fun &f, Fun &g) { p.Do(f, g); }
extern "C" void w_s_doq(F &p, const Quantifier<Fun> &q) { p.Do(q); }
extern "C" void w_s_ado(F &p, Fun &f) { p.AlwaysDo(f); }
extern "C" void w_s_set(FR &p, int &&r, int &v) { p.ReturnAndSet(std::move(r), v); }
extern "C" void w_s_aset(FR &p, int &&r, int &v) { p.AlwaysReturnAndSet(std::move(r), v); }
extern "C" void w_s_sreturn1(S &p, std::string &a) { p.Return(a); }
extern "C" void w_s_sareturn1(S &p, std::string &a) { p.AlwaysReturn(a); }
extern "C" void w_s_oreturn1(O &p, Val &a) { p.Return(a); }
extern "C" void w_s_oreturnq(O &p, const Quantifier<Val> &q) { p.Return(q); }
extern "C" void w_s_oareturn1(O &p, Val &a) { p.AlwaysReturn(a); }
extern "C" void w_s_rreturn1(R &p, int &a) { p.Return(a); }
extern "C" void w_s_rareturn1(R &p, int &a) { p.AlwaysReturn(a); }
extern "C" void w_s_ureturn1(U &p, std::unique_ptr<int> &a) { p.Return(std::move(a)); }
extern "C" void w_s_vreturn0(V &p) { p.Return(); }
extern "C" void w_s_vareturn0(V &p) { p.AlwaysReturn(); }
extern "C" void w_s_vreturnq(V &p, const Quantifier<void> &q) { p.Return(q); }
extern "C" void w_s_vreturntimes(V &p) { p.Return(4_Times); }
extern "C" void w_s_vthrow1(V &p, Err &e) { p.Throw(e); }
extern "C" void w_s_vthrow2(V &p, Err &e, int &g) { p.Throw(e, g); }
extern "C" void w_s_vthrowq(V &p, const Quantifier<Err> &q) { p.Throw(q); }
extern "C" void w_s_vathrow(V &p, Err &e) { p.AlwaysThrow(e); }
extern "C" void w_s_vdo1(V &p, VFun &f) { p.Do(f); }
extern "C" void w_s_vdo2(V &p, VFun &f, VFun &g) { p.Do(f, g); }
extern "C" void w_s_vdoq(V &p, const Quantifier<VFun> &q) { p.Do(q); }
extern "C" void w_s_vado(V &p, VFun &f) { p.AlwaysDo(f); }
extern "C" void w_s_vset(VR &p, int &v) { p.ReturnAndSet(v); }
extern "C" void w_s_vaset(VR &p, int &v) { p.AlwaysReturnAndSet(v); }

// quantities
extern "C" int w_q_value(int k, int &v) { return QuantifierFunctor(k)(v).quantity; }
extern "C" int w_q_lit(unsigned long long n, int &v) { return operator""_Times(n)(v).quantity; }
extern "C" int w_q_void(unsigned long long n) { return operator""_Times(n).quantity; }
extern "C" int w_q_one(int &v) { return (1_Time(v)).quantity; }
extern "C" int w_q_of(int &v) { return Times<7>::of(v).quantity; }
extern "C" int w_q_ofvoid() { return Times<7>::Void().quantity; }
extern "C" const int &w_q_ofheld(int &v) { return Times<7>::of(v).value; }
extern "C" const int &w_q_held(int k, int &v) { return QuantifierFunctor(k)(v).value; }

// statements that take effect at once
struct I { virtual ~I() {} virtual int f(int) = 0; virtual std::string s(const std::string &, int) = 0; virtual Val o(int, int) = 0; virtual void v(int) = 0; virtual int &r(int) = 0; virtual std::unique_ptr<int> u(int) = 0; };
extern "C" void w_n_fake1(const StubbingContext<int, int> &c) { Fake(c); }
extern "C" void w_n_fake2(const StubbingContext<int, int> &c, const StubbingContext<void, int> &d) { Fake(c, d); }
extern "C" void w_n_spy1(const SpyingContext<int, int> &c) { Spy(c); }
extern "C" void w_n_spy2(const SpyingContext<int, int> &c, const SpyingContext<void, int> &d) { Spy(c, d); }
extern "C" void w_n_spyw1(const SpyingContext<int, int> &c) { SpyWithoutVerify(c); }
extern "C" void w_n_assignf(MockingContext<int, int> &c, Fun &f) { c = f; }
extern "C" void w_n_assignv(MockingContext<int, int> &c, int &v) { c = v; }
extern "C" void w_n_assigno(MockingContext<Val, int, int> &c, Val &v) { c = v; }
extern "C" void w_n_assignr(MockingContext<int &, int> &c, int &v) { c = v; }
extern "C" void w_n_assignvoid(MockingContext<void, int> &c, VFun &f) { c = f; }
extern "C" void w_n_assigndtor(DtorMockingContext &c, std::function<void()> &f) { c = f; }
template struct fakeit::ActionSequence<int, int>;
template struct fakeit::ActionSequence<void, int>;
template struct fakeit::ActionSequence<std::string, const std::string &, int>;

struct J { virtual ~J() {} virtual int f(int &) = 0; virtual void v(int &) = 0; };
extern "C" void w_use(int &x) {
    Mock<I> m;
    Mock<J> j;
    When(Method(m, f)).Return(1);
    When(Method(m, s)).Return("a");
    When(Method(m, o)).Return();
    When(Method(m, v)).Return();
    When(Method(m, r)).Return(x);
    When(Method(m, u)).Return(std::unique_ptr<int>());
    When(Method(j, f)).Return(1);
    When(Method(j, v)).Return();
    Spy(Method(m, f));
}

// the life of a statement
extern "C" void w_l_when(const StubbingContext<int, int> &c) { When(c); }
extern "C" void w_l_whenv(const StubbingContext<void, int> &c) { When(c); }
extern "C" bool w_l_flying() { return UncaughtException(); }
void keep(void *);
extern "C" void w_l_copy(const WhenFunctor::MethodProgress<int, int> &p) { WhenFunctor::MethodProgress<int, int> q(p); keep(&q); }
extern "C" void w_l_copyv(const WhenFunctor::MethodProgress<void, int> &p) { WhenFunctor::MethodProgress<void, int> q(p); keep(&q); }
