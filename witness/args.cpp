// Builds one matcher of every kind and operand type; analysed, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

struct Key { int k; Key(const Key&); ~Key(); };
struct Obj { int a; std::string s; Obj(const Obj&); ~Obj(); };
bool operator==(const Obj&, const Key&);
bool operator!=(const Obj&, const Key&);
bool operator<(const Obj&, const Key&);
bool operator<=(const Obj&, const Key&);
bool operator>(const Obj&, const Key&);
bool operator>=(const Obj&, const Key&);
bool operator==(const Key&, const Obj&);
bool operator!=(const Key&, const Obj&);
bool operator<(const Key&, const Obj&);
bool operator<=(const Key&, const Obj&);
bool operator>(const Key&, const Obj&);
bool operator>=(const Key&, const Obj&);

#define ONE(N, T, A, E) \
    extern "C" TypedMatcher<A> *w_m_##N##_##T##_lv(E &e) { return N(e).template createMatcher<A>(); } \
    extern "C" TypedMatcher<A> *w_m_##N##_##T##_rv(E &&e) { return N(std::move(e)).template createMatcher<A>(); }
#define SIX(T, A, E) ONE(Eq, T, A, E) ONE(Ne, T, A, E) ONE(Gt, T, A, E) ONE(Ge, T, A, E) ONE(Lt, T, A, E) ONE(Le, T, A, E)
SIX(int, int, int)
SIX(unsigned, unsigned, unsigned)
SIX(double, double, double)
SIX(wide, int, long)
SIX(narrow, long, int)
SIX(mixed, double, int)
SIX(obj, Obj, Key)
ONE(StrEq, cstr, const char *, std::string)
ONE(StrNe, cstr, const char *, std::string)
ONE(StrGt, cstr, const char *, std::string)
ONE(StrGe, cstr, const char *, std::string)
ONE(StrLt, cstr, const char *, std::string)
ONE(StrLe, cstr, const char *, std::string)
extern "C" TypedMatcher<double> *w_a_double_lv(double &e, double &m) { return ApproxEq(e, m).template createMatcher<double>(); }
extern "C" TypedMatcher<double> *w_a_double_rv(double &&e, double &&m) { return ApproxEq(std::move(e), std::move(m)).template createMatcher<double>(); }
extern "C" TypedMatcher<int> *w_a_int_lv(int &e, int &m) { return ApproxEq(e, m).template createMatcher<int>(); }
extern "C" TypedMatcher<int> *w_any_int() { return Any<int>().createMatcher<int>(); }
extern "C" TypedMatcher<Obj> *w_any_obj() { return Any().createMatcher<Obj>(); }

// what a stubbing makes of a bare value, a wildcard and a matcher
extern "C" void w_c_bare_int(std::vector<Destructible *> &v, int &e) { MatchersCollector<0, int>(v).CollectMatchers(e); }
extern "C" void w_c_bare_wide(std::vector<Destructible *> &v, long &e) { MatchersCollector<0, int>(v).CollectMatchers(e); }
extern "C" void w_c_bare_str(std::vector<Destructible *> &v, std::string &&e) { MatchersCollector<0, std::string>(v).CollectMatchers(std::move(e)); }
extern "C" void w_c_any_int(std::vector<Destructible *> &v) { MatchersCollector<0, int>(v).CollectMatchers(_); }
extern "C" void w_c_any_obj(std::vector<Destructible *> &v) { MatchersCollector<0, const Obj &>(v).CollectMatchers(_); }
extern "C" void w_c_gt_int(std::vector<Destructible *> &v, int &e) { MatchersCollector<0, int>(v).CollectMatchers(Gt(e)); }
extern "C" void w_c_anyc_int(std::vector<Destructible *> &v) { MatchersCollector<0, int>(v).CollectMatchers(Any()); }
extern "C" void w_c_three(std::vector<Destructible *> &v, int &a, std::string &b, long &c) { MatchersCollector<0, int, const std::string &, long>(v).CollectMatchers(Gt(a), b, Le(c)); }
