// Which method each selector accepts and the type of stub it gives, as constants; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <type_traits>
using namespace fakeit;

#define ACCEPTS(sel) \
    template <class C> auto test_##sel(Mock<C> &m) -> typename std::decay<decltype(sel(m, f, int(int)))>::type; \
    template <class C> void test_##sel(...);
ACCEPTS(OverloadedMethod)
ACCEPTS(ConstOverloadedMethod)
ACCEPTS(RefOverloadedMethod)
ACCEPTS(ConstRefOverloadedMethod)
ACCEPTS(RValRefOverloadedMethod)
ACCEPTS(ConstRValRefOverloadedMethod)
template <class C> auto test_Method(Mock<C> &m) -> typename std::decay<decltype(Method(m, f))>::type;
template <class C> void test_Method(...);
struct Plain { virtual int f(int); };
struct Const { virtual int f(int) const; };
struct Vol { virtual int f(int) volatile; };
struct CVol { virtual int f(int) const volatile; };
struct Ref { virtual int f(int) &; };
struct CRef { virtual int f(int) const &; };
struct RVal { virtual int f(int) &&; };
struct CRVal { virtual int f(int) const &&; };
struct Long { virtual int f(long); virtual int f(long) const; };
struct Void { virtual void f(int); virtual void f(int) const; };
struct LongR { virtual int f(long) &; virtual int f(long) const &; virtual int f(long) &&; virtual int f(long) const &&; };
struct VoidR { virtual void f(int) &; virtual void f(int) const &; virtual void f(int) &&; virtual void f(int) const &&; };
#define T(sel, C) extern "C" bool w_t_##sel##_on_##C() { return !std::is_void<decltype(test_##sel<C>(std::declval<Mock<C> &>()))>::value; } \
    extern "C" bool w_k_##sel##_on_##C() { return std::is_same<decltype(test_##sel<C>(std::declval<Mock<C> &>())), MockingContext<int, int>>::value; }
#define TALL(C) T(OverloadedMethod, C) T(ConstOverloadedMethod, C) T(RefOverloadedMethod, C) T(ConstRefOverloadedMethod, C) T(RValRefOverloadedMethod, C) T(ConstRValRefOverloadedMethod, C) T(Method, C)
TALL(Plain) TALL(Const) TALL(Vol) TALL(CVol) TALL(Ref) TALL(CRef) TALL(RVal) TALL(CRVal) TALL(Long) TALL(Void) TALL(LongR) TALL(VoidR)
