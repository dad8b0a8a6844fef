// Names every way of choosing the calls a verification looks at; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct I {
    virtual ~I() {}
    virtual int f(int) = 0;
    virtual void p() = 0;
    virtual int two(int, std::string) = 0;
};
template class fakeit::Mock<I>;
template struct fakeit::RecordedMethodBody<int, int>;
template struct fakeit::RecordedMethodBody<void>;

typedef const Sequence &S;
typedef const ActualInvocationsSource &A;
typedef SequenceVerificationProgress V;
typedef VerifyNoOtherInvocationsVerificationProgress N;

extern "C" V w_verify1(S a) { return Verify(a); }
extern "C" V w_verify2(S a, S b) { return Verify(a, b); }
extern "C" V w_verify4(S a, S b, S c, S d) { return Verify(a, b, c, d); }
extern "C" V w_unverified1(S a) { return Unverified.Verify(a); }
extern "C" V w_unverified3(S a, S b, S c) { return Unverified.Verify(a, b, c); }
extern "C" UsingProgress w_using1(A a) { return Using(a); }
extern "C" UsingProgress w_using2(A a, A b) { return Using(a, b); }
extern "C" UsingProgress w_using4(A a, A b, A c, A d) { return Using(a, b, c, d); }
extern "C" UnverifiedInvocationsSource w_restrict1(A a) { return Unverified(a); }
extern "C" UnverifiedInvocationsSource w_restrict3(A a, A b, A c) { return Unverified(a, b, c); }
extern "C" V w_in1(UsingProgress &u, S a) { return u.Verify(a); }
extern "C" V w_in3(UsingProgress &u, S a, S b, S c) { return u.Verify(a, b, c); }
extern "C" N w_noother1(A a) { return VerifyNoOtherInvocations(a); }
extern "C" N w_noother2(A a, A b) { return VerifyNoOtherInvocations(a, b); }
extern "C" N w_noother4(A a, A b, A c, A d) { return VerifyNoOtherInvocations(a, b, c, d); }

extern "C" void w_use(I *inst) {
    Mock<I> m, n(*inst);
    When(Method(m, f).Using(1)).Return(1, 2).AlwaysReturn(3);
    Fake(Method(m, p));
    Spy(Method(n, two));
    When(Dtor(m)).Do([]() {});
    Verify(Method(m, f) + Method(m, p) * 2, 3 * Method(n, two), Dtor(m));
    Using(Method(m, f), m).Verify(Method(m, f));
    m.ClearInvocationHistory();
    m.Reset();
}

extern "C" MockingContext<int, int> w_ctx_f(Mock<I> &m) { return m.stub<1>(&I::f); }
extern "C" MockingContext<void> w_ctx_p(Mock<I> &m) { return m.stub<2>(&I::p); }
extern "C" DtorMockingContext w_ctx_dtor(Mock<I> &m) { return m.dtor(); }
extern "C" ConcatenatedSequence w_both(S a, S b) { return a + b; }
extern "C" RepeatedSequence w_times(S a, int n) { return a * n; }
extern "C" RepeatedSequence w_timesl(S a, int n) { return n * a; }
