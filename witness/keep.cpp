// Matchers made from arrays and string literals; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;

#define ARR(N) extern "C" TypedMatcher<std::string> *w_m_##N##_arr(const char (&e)[6]) { return N(e).template createMatcher<std::string>(); }
ARR(Eq) ARR(Ne) ARR(Gt) ARR(Ge) ARR(Lt) ARR(Le)
extern "C" TypedMatcher<const char *> *w_m_StrEq_arr(const char (&e)[6]) { return StrEq(e).template createMatcher<const char *>(); }
extern "C" void w_c_bare_arr(std::vector<Destructible *> &v, const char (&e)[6]) { MatchersCollector<0, std::string>(v).CollectMatchers(e); }
extern "C" void w_c_ref_arr(std::vector<Destructible *> &v, char (&e)[6]) { MatchersCollector<0, const std::string &>(v).CollectMatchers(e); }
