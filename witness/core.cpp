// Uses the public API so that every template under analysis is instantiated.
// This file is compiled to an in-memory graph and never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct Big { int a; std::string s; Big(); Big(const Big&); ~Big(); bool operator==(const Big&) const; };
struct I {
    virtual ~I() {}
    virtual int f(int) = 0;
    virtual void p() = 0;
    virtual int two(int, std::string) = 0;
    virtual int byref(int &, const std::string &, int &&) = 0;
    virtual int &ret() = 0;
};

template struct fakeit::RecordedMethodBody<int, int>;
template struct fakeit::RecordedMethodBody<void>;
template struct fakeit::ActionSequence<int, int>;
template struct fakeit::ActionSequence<void>;
template class fakeit::Mock<I>;

extern "C" void w_use(I *inst) {
    Mock<I> m;
    When(Method(m, f).Using(1)).Return(1, 2).AlwaysReturn(3);
    When(Method(m, p)).Do([]() {});
    When(Method(m, two).Using(_, Eq(std::string("a")))).Throw(3);
    When(Method(m, byref)).AlwaysDo([](int &, const std::string &, int &) { return 1; });
    Fake(Method(m, p));
    When(Dtor(m)).Do([]() {});
    Verify(Method(m, f)).Once();
    Verify(Method(m, f).Using(1), Method(m, p)).AtLeast(2);
    VerifyNoOtherInvocations(Method(m, f));
    VerifyNoOtherInvocations(m);
    Mock<I> s(*inst);
    Spy(Method(s, f));
    SpyWithoutVerify(Method(s, two));
    m.Reset();
    m.ClearInvocationHistory();
    m.get().f(1);
}
