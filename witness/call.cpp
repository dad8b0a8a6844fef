// Methods with parameters and results of every kind, mocked and spied; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <memory>
#include <string>
using namespace fakeit;

struct Big { int a; std::string s; Big(); Big(const Big &); Big(Big &&); ~Big(); bool operator==(const Big &) const; };
struct C {
    virtual ~C() {}
    virtual void none() = 0;
    virtual int one(int) = 0;
    virtual int two(int, int) = 0;
    virtual int eight(int, int, int, int, int, int, int, int) = 0;
    virtual std::string strs(std::string, std::string, std::string) = 0;
    virtual int &refs(int &, int &, const int &, int *) = 0;
    virtual std::string &&rvals(std::string &&, std::string &&) = 0;
    virtual Big mixed(Big, const Big &, Big &, int, Big &&, double) = 0;
    virtual std::unique_ptr<int> moved(std::unique_ptr<int>, std::unique_ptr<int> &&, std::unique_ptr<int> &) = 0;
    virtual const std::string &small(bool, char, short, float, long double) = 0;
    virtual double dbl(float, double, float) = 0;
    virtual long cst(long, long) const = 0;
};

extern "C" void w_use(C *c) {
    Mock<C> m, k(*c);
    Fake(Method(m, none), Method(m, one), Method(m, two), Method(m, eight), Method(m, strs), Method(m, mixed), Method(m, dbl), Method(m, cst));
    When(Method(m, none)).Do([]() {}).AlwaysDo([]() {});
    When(Method(m, one)).Return(1).AlwaysReturn(2);
    When(Method(m, two)).Return(1).AlwaysReturn(2);
    When(Method(m, eight)).Return(1).AlwaysReturn(2);
    When(Method(m, strs)).Return("").AlwaysReturn("");
    When(Method(m, refs)).Do([](int &a, int &, const int &, int *) -> int & { return a; }).AlwaysDo([](int &a, int &, const int &, int *) -> int & { return a; });
    When(Method(m, rvals)).Do([](std::string &a, std::string &) -> std::string && { return std::move(a); }).AlwaysDo([](std::string &a, std::string &) -> std::string && { return std::move(a); });
    When(Method(m, mixed)).Return(Big()).AlwaysReturn(Big());
    When(Method(m, moved)).Do([](std::unique_ptr<int> &a, std::unique_ptr<int> &, std::unique_ptr<int> &) { return std::move(a); }).AlwaysDo([](std::unique_ptr<int> &a, std::unique_ptr<int> &, std::unique_ptr<int> &) { return std::move(a); });
    static std::string t;
    When(Method(m, small)).Return(t).AlwaysReturn(t);
    When(Method(m, dbl)).Return(1).AlwaysReturn(2);
    When(Method(m, cst)).Return(1).AlwaysReturn(2);
    SpyWithoutVerify(Method(k, none), Method(k, one), Method(k, two), Method(k, eight), Method(k, strs), Method(k, refs), Method(k, rvals), Method(k, mixed), Method(k, moved), Method(k, small), Method(k, dbl), Method(k, cst));
}
