// What reports and printed calls consist of; analysed, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct Big { int a; std::string s; Big(const Big &); ~Big(); bool operator==(const Big &) const; };
struct Shown { int a; std::string s; bool operator==(const Shown &) const; bool operator!=(const Shown &) const; };
std::ostream &operator<<(std::ostream &, const Shown &);
struct Q {
    virtual ~Q() {}
    virtual int none() = 0;
    virtual int one(int) = 0;
    virtual void two(int, const std::string &) = 0;
    virtual int three(double &, Big, int *) = 0;
    virtual int four(bool, char, const char *, Shown) = 0;
    virtual int five(std::string, std::string &, char *, Shown &, unsigned, const Big &) = 0;
    virtual int eight(int, int, bool, int, const int &, long, char, int) = 0;
};
template class fakeit::Mock<Q>;

#define FIVE std::string, std::string &, char *, Shown &, unsigned, const Big &
#define EIGHT int, int, bool, int, const int &, long, char, int

extern "C" std::string w_call_none(const ActualInvocation<> &i) { return i.ActualInvocation<>::format(); }
extern "C" std::string w_call_one(const ActualInvocation<int> &i) { return i.ActualInvocation<int>::format(); }
extern "C" std::string w_call_two(const ActualInvocation<int, const std::string &> &i) { return i.ActualInvocation<int, const std::string &>::format(); }
extern "C" std::string w_call_three(const ActualInvocation<double &, Big, int *> &i) { return i.ActualInvocation<double &, Big, int *>::format(); }
extern "C" std::string w_call_four(const ActualInvocation<bool, char, const char *, Shown> &i) { return i.ActualInvocation<bool, char, const char *, Shown>::format(); }
extern "C" std::string w_call_five(const ActualInvocation<FIVE> &i) { return i.ActualInvocation<FIVE>::format(); }
extern "C" std::string w_call_eight(const ActualInvocation<EIGHT> &i) { return i.ActualInvocation<EIGHT>::format(); }
extern "C" const void *w_name(const Invocation &i) { return &i.getMethod(); }

extern "C" int w_enum_exact() { return (int)VerificationType::Exact; }
extern "C" int w_enum_atleast() { return (int)VerificationType::AtLeast; }
extern "C" int w_enum_unmocked() { return (int)UnexpectedType::Unmocked; }
extern "C" int w_enum_unmatched() { return (int)UnexpectedType::Unmatched; }
extern "C" int w_get_expectedCount(const SequenceVerificationEvent &e) { return e.expectedCount(); }
extern "C" int w_get_actualCount(const SequenceVerificationEvent &e) { return e.actualCount(); }
extern "C" int w_get_type(const SequenceVerificationEvent &e) { return (int)e.verificationType(); }
extern "C" const void *w_get_pattern(const SequenceVerificationEvent &e) { return &e.expectedPattern(); }
extern "C" const void *w_get_sequence(const SequenceVerificationEvent &e) { return &e.actualSequence(); }
extern "C" const void *w_get_unverified(const NoMoreInvocationsVerificationEvent &e) { return &e.unverifedIvocations(); }
extern "C" const void *w_get_invocation(const UnexpectedMethodCallEvent &e) { return &e.getInvocation(); }
extern "C" int w_get_unexpected(const UnexpectedMethodCallEvent &e) { return (int)e.getUnexpectedType(); }
extern "C" const void *w_seq_left(const ConcatenatedSequence &s) { return &s.getLeft(); }
extern "C" const void *w_seq_right(const ConcatenatedSequence &s) { return &s.getRight(); }
extern "C" const void *w_seq_inner(const RepeatedSequence &s) { return &s.getSequence(); }
extern "C" int w_seq_times(const RepeatedSequence &s) { return s.getTimes(); }

void w_use(Q *q) {
    Mock<Q> m, n(*q);
    std::string s;
    Shown h;
    Fake(Method(m, none), Dtor(m));
    Fake(Method(m, one).Using(1), Method(m, one).Using(Gt(1)), Method(m, one).Matching([](int &) { return true; }));
    Fake(Method(m, one).Using(Ne(1)), Method(m, one).Using(Ge(1)), Method(m, one).Using(Lt(1)), Method(m, one).Using(Le(1)), Method(m, one).Using(_));
    Fake(Method(m, two).Using(1, s), Method(m, two).Using(Any<int>(), s));
    Fake(Method(m, three).Using(1.0, _, nullptr), Method(m, three).Using(ApproxEq(1.0, 0.1), _, _));
    Fake(Method(m, four).Using(true, 'c', "x", h), Method(m, four).Using(_, Ne('c'), StrEq("x"), _));
    Fake(Method(m, four).Using(_, _, StrNe("x"), _), Method(m, four).Using(_, _, StrLt("x"), _), Method(m, four).Using(_, _, StrLe("x"), _), Method(m, four).Using(_, _, StrGt("x"), _), Method(m, four).Using(_, _, StrGe("x"), _));
    Fake(Method(m, five).Using(s, s, _, h, 1u, _), Method(m, eight));
    Verify(Method(m, one) + Method(m, two) * 2, 3 * Method(n, one), Dtor(m)).Exactly(1);
}
