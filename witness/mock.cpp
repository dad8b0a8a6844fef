// One function per operation of a mock on its object and its tables; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <new>
#include <string>
using namespace fakeit;

struct I {
    virtual ~I() {}
    virtual int f(int) = 0;
    virtual void p() = 0;
    virtual int &r(int &, std::string, const std::string &) const = 0;
    virtual std::string s(std::string &&) = 0;
    virtual int g(int) = 0;
    int number;
    std::string text;
};
struct Small {
    virtual int f(int) = 0;
    virtual void p() = 0;
};
struct MadeI : I {
    int f(int) override { return 1; }
    void p() override {}
    int &r(int &a, std::string, const std::string &) const override { return a; }
    std::string s(std::string &&) override { return ""; }
    int g(int) override { return 1; }
};
struct MadeSmall : Small {
    int f(int) override { return 1; }
    void p() override {}
};
extern "C" void w_made(void *i, void *s) {
    new (i) MadeI();
    new (s) MadeSmall();
}
template class fakeit::Mock<I>;
template class fakeit::Mock<Small>;

extern "C" void w_m_make(void *at) { new (at) Mock<I>(); }
extern "C" void w_m_spy(void *at, I &i) { new (at) Mock<I>(i); }
extern "C" void w_m_destroy(Mock<I> &m) { m.~Mock<I>(); }
extern "C" void w_m_reset(Mock<I> &m) { m.Reset(); }
extern "C" void w_m_clear(Mock<I> &m) { m.ClearInvocationHistory(); }
extern "C" I &w_m_get(Mock<I> &m) { return m.get(); }
extern "C" void w_n_make(void *at) { new (at) Mock<Small>(); }
extern "C" void w_n_spy(void *at, Small &i) { new (at) Mock<Small>(i); }
extern "C" void w_n_destroy(Mock<Small> &m) { m.~Mock<Small>(); }
extern "C" void w_n_reset(Mock<Small> &m) { m.Reset(); }
extern "C" void w_n_clear(Mock<Small> &m) { m.ClearInvocationHistory(); }

extern "C" void w_use(I *inst, I &i, Mock<Small> &n) {
    Mock<I> m, k(*inst);
    When(Method(m, f)).Return(1);
    When(Method(m, g)).Return(1);
    Fake(Method(m, p), Method(n, f), Method(n, p));
    Spy(Method(k, f), Method(k, r), Method(k, p));
    SpyWithoutVerify(Method(k, s));
    When(Dtor(m)).Do([]() {});
    m.Stub(&I::number, 3);
    Fake(m.stub<70001>(&I::g));
    i.f(1);
}
