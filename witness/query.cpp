// Everything that looks at calls without changing them: matchers, lists of calls, searches, reports; analysed, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct Big { int a; std::string s; Big(const Big &); ~Big(); bool operator==(const Big &) const; };
struct Shown { int a; std::string s; bool operator==(const Shown &) const; bool operator!=(const Shown &) const; };
std::ostream &operator<<(std::ostream &, const Shown &);
struct Q {
    virtual ~Q() {}
    virtual int none() = 0;
    virtual int one(int) = 0;
    virtual void two(int, const std::string &) = 0;
    virtual int three(double &, Big, int *) = 0;
    virtual int four(bool, char, const char *, Shown) = 0;
    virtual int five(std::string, std::string &, std::string &&, Shown &, char *) = 0;
    virtual int six(std::unique_ptr<int>, Big &&, std::vector<int>) = 0;
};
template class fakeit::Mock<Q>;

void w_use(Q *q) {
    Mock<Q> m, n(*q);
    std::string s;
    Shown h;
    Fake(Method(m, none), Dtor(m));
    Fake(Method(m, one).Using(1), Method(m, one).Using(Gt(1)), Method(m, one).Matching([](int &) { return true; }));
    Fake(Method(m, one).Using(Ne(1)), Method(m, one).Using(Ge(1)), Method(m, one).Using(Lt(1)), Method(m, one).Using(Le(1)), Method(m, one).Using(_));
    Fake(Method(m, two).Using(1, ""), Method(m, two).Using(Any<int>(), s), Method(m, two).Matching([](int &, const std::string &) { return true; }));
    Fake(Method(m, three).Using(1.0, _, nullptr), Method(m, three).Using(ApproxEq(1.0, 0.1), _, nullptr), Method(m, three).Matching([](double &, Big &, int *&) { return true; }));
    Fake(Method(m, four).Using(true, 'c', "x", h), Method(m, four).Using(_, Ne('c'), StrEq("x"), _));
    Fake(Method(m, four).Using(_, _, StrNe("x"), _), Method(m, four).Using(_, _, StrLt("x"), _), Method(m, four).Using(_, _, StrGe(s), _));
    Fake(Method(m, five).Using("a", s, s, h, _), Method(m, five).Using(_, _, _, Ne(h), _));
    Fake(Method(m, six));
    Spy(Method(n, one));
    Verify(Method(m, one) + Method(m, two) * 2, 3 * Method(n, one), Dtor(m)).Exactly(1);
    Unverified.Verify(Method(m, one)).AtLeastOnce();
    Using(m, Method(n, one), Unverified(m)).Verify(Method(n, one));
    VerifyNoOtherInvocations(m, Method(n, one));
}
