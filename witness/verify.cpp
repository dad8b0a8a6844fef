// Names every verification entry point once; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct I {
    virtual ~I() {}
    virtual int f(int) = 0;
    virtual void p() = 0;
    virtual int two(int, std::string) = 0;
};

// the ways a count can be asked for; `k` stands for the number given
extern "C" void w_count_Exactly(SequenceVerificationProgress &v, int k) { v.Exactly(k); }
extern "C" void w_count_ExactlyQ(SequenceVerificationProgress &v, const Quantity &q) { v.Exactly(q); }
extern "C" void w_count_AtLeast(SequenceVerificationProgress &v, int k) { v.AtLeast(k); }
extern "C" void w_count_AtLeastQ(SequenceVerificationProgress &v, const Quantity &q) { v.AtLeast(q); }
extern "C" void w_count_Never(SequenceVerificationProgress &v) { v.Never(); }
extern "C" void w_count_Once(SequenceVerificationProgress &v) { v.Once(); }
extern "C" void w_count_Twice(SequenceVerificationProgress &v) { v.Twice(); }
extern "C" void w_count_AtLeastOnce(SequenceVerificationProgress &v) { v.AtLeastOnce(); }
extern "C" void w_count_Any(SequenceVerificationProgress &v) { v.Any(); }
extern "C" void w_count_ExactlyTimes(SequenceVerificationProgress &v) { v.Exactly(3_Times); }
extern "C" void w_count_ExactlyTime(SequenceVerificationProgress &v) { v.Exactly(1_Time); }
extern "C" void w_count_AtLeastTimes(SequenceVerificationProgress &v) { v.AtLeast(3_Times); }
extern "C" void w_count_ExactlyTimesT(SequenceVerificationProgress &v) { v.Exactly(Times<3>()); }
extern "C" void w_count_ExactlyOnceG(SequenceVerificationProgress &v) { v.Exactly(fakeit::Once); }

extern "C" bool w_bool_seq(const SequenceVerificationProgress &v) { return v; }
extern "C" bool w_not_seq(const SequenceVerificationProgress &v) { return !v; }
extern "C" bool w_bool_term(SequenceVerificationProgress &v) { return v.Once(); }
extern "C" bool w_not_term(SequenceVerificationProgress &v) { return !v.Once(); }
extern "C" bool w_bool_noother(const VerifyNoOtherInvocationsVerificationProgress &v) { return v; }
extern "C" bool w_not_noother(const VerifyNoOtherInvocationsVerificationProgress &v) { return !v; }
extern "C" void w_file_seq(SequenceVerificationProgress &v, const char *f, int l, const char *m) { v.setFileInfo(f, l, m); }
extern "C" void w_file_noother(VerifyNoOtherInvocationsVerificationProgress &v, const char *f, int l, const char *m) { v.setFileInfo(f, l, m); }

extern "C" void w_verify1(Mock<I> &m) { Verify(Method(m, f)); }
extern "C" void w_verify2(Mock<I> &m, Mock<I> &n) { Verify(Method(m, f) + Method(n, p), Method(n, p) * 2, 3 * Method(m, two)); }
extern "C" void w_using1(Mock<I> &m, Mock<I> &n) { Using(m).Verify(Method(m, f)); }
extern "C" void w_using2(Mock<I> &m, Mock<I> &n) { Using(m, n).Verify(Method(m, f), Method(n, p)); }
extern "C" void w_using3(Mock<I> &m, Mock<I> &n) { Using(Method(m, f), n, Method(n, p)).Verify(Method(m, f)); }
extern "C" void w_unverified1(Mock<I> &m, Mock<I> &n) { Unverified.Verify(Method(m, f), Method(n, p)); }
extern "C" void w_unverified2(Mock<I> &m, Mock<I> &n) { Using(Unverified(m, n)).Verify(Method(m, f)); }
extern "C" void w_noother1(Mock<I> &m) { VerifyNoOtherInvocations(m); }
extern "C" void w_noother2(Mock<I> &m, Mock<I> &n) { VerifyNoOtherInvocations(Method(m, f), n); }
extern "C" void w_stub(Mock<I> &m) { When(Method(m, f)).Return(1); Fake(Method(m, p)); Fake(Method(m, two)); m.get().f(1); m.ClearInvocationHistory(); m.Reset(); }

// what a report offers to its readers
extern "C" int w_enum_exact() { return (int)VerificationType::Exact; }
extern "C" int w_enum_atleast() { return (int)VerificationType::AtLeast; }
extern "C" int w_enum_nomore() { return (int)VerificationType::NoMoreInvocations; }
extern "C" int w_enum_unmocked() { return (int)UnexpectedType::Unmocked; }
extern "C" int w_enum_unmatched() { return (int)UnexpectedType::Unmatched; }
extern "C" int w_get_expectedCount(const SequenceVerificationEvent &e) { return e.expectedCount(); }
extern "C" int w_get_actualCount(const SequenceVerificationEvent &e) { return e.actualCount(); }
extern "C" const void *w_get_expectedPattern(const SequenceVerificationEvent &e) { return &e.expectedPattern(); }
extern "C" const void *w_get_actualSequence(const SequenceVerificationEvent &e) { return &e.actualSequence(); }
extern "C" const void *w_get_allIvocations(const NoMoreInvocationsVerificationEvent &e) { return &e.allIvocations(); }
extern "C" const void *w_get_unverifedIvocations(const NoMoreInvocationsVerificationEvent &e) { return &e.unverifedIvocations(); }
extern "C" int w_get_verificationType(const SequenceVerificationEvent &e) { return (int)e.verificationType(); }
extern "C" const char *w_get_file(const SequenceVerificationEvent &e) { return e.file(); }
extern "C" int w_get_line(const SequenceVerificationEvent &e) { return e.line(); }
extern "C" const char *w_get_callingMethod(const SequenceVerificationEvent &e) { return e.callingMethod(); }
extern "C" const void *w_get_invocation(const UnexpectedMethodCallEvent &e) { return &e.getInvocation(); }
extern "C" int w_get_unexpectedType(const UnexpectedMethodCallEvent &e) { return (int)e.getUnexpectedType(); }
