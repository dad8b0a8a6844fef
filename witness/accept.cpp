// Which calls a stubbing or verification accepts: matchers per argument, predicates, other methods; analysed, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct Big { int a; std::string s; Big(const Big &); ~Big(); bool operator==(const Big &) const; };
struct A {
    virtual int none() = 0;
    virtual int one(int) = 0;
    virtual void two(int, const std::string &) = 0;
    virtual int three(double &, Big, int *) = 0;
    virtual int four(int, int, int, int) = 0;
    virtual int five(int, int &, const int &, int *, Big &) = 0;
    virtual int six(std::unique_ptr<int>, Big &&) = 0;
};
using C1 = MockingContext<int, int>;
using C2 = MockingContext<void, int, const std::string &>;
using C4 = MockingContext<int, int, int, int, int>;

extern "C" void w_u_using1(C1 &c, int &a) { c.Using(a); }
extern "C" void w_u_using2(C2 &c, int &a, std::string &b) { c.Using(a, b); }
extern "C" void w_u_using4(C4 &c, int &a, int &b, int &d, int &e) { c.Using(a, b, d, e); }
extern "C" void w_u_gt4(C4 &c, int &a, int &b, int &d, int &e) { c.Using(a, Gt(b), Lt(d), e); }
extern "C" void w_u_call1(C1 &c, int &a) { c(a); }
extern "C" void w_u_call2(C2 &c, int &a, std::string &b) { c(a, b); }
extern "C" void w_u_call4(C4 &c, int &a, int &b, int &d, int &e) { c(a, b, d, e); }
extern "C" void w_u_pred1(C1 &c, std::function<bool(int &)> &f) { c.Matching(f); }
extern "C" void w_u_pred2(C2 &c, std::function<bool(int &, const std::string &)> &f) { c.Matching(f); }
extern "C" void w_u_predcall1(C1 &c, std::function<bool(int &)> &f) { c(f); }
extern "C" void w_u_predcall2(C2 &c, std::function<bool(int &, const std::string &)> &f) { c(f); }

extern "C" void w_d_1(MethodMockingContext<int, int>::Context *c) { new C1(c); }
extern "C" void w_d_2(MethodMockingContext<void, int, const std::string &>::Context *c) { new C2(c); }
extern "C" void w_d_4(MethodMockingContext<int, int, int, int, int>::Context *c) { new C4(c); }

void w_use() {
    Mock<A> m;
    Fake(Method(m, none));
    Fake(Method(m, one).Using(1), Method(m, one).Matching([](int &) { return true; }));
    Fake(Method(m, two).Using(1, ""), Method(m, two).Matching([](int &, const std::string &) { return true; }));
    Fake(Method(m, three).Using(_, _, nullptr), Method(m, three).Matching([](double &, Big &, int *&) { return true; }));
    Fake(Method(m, four).Using(1, 2, 3, 4), Method(m, four).Matching([](int &, int &, int &, int &) { return true; }));
    int i = 0;
    Fake(Method(m, five).Using(1, 2, 3, &i, _), Method(m, five).Matching([](int &, int &, const int &, int *&, Big &) { return true; }));
    Fake(Method(m, six));
    Verify(Method(m, one));
}
