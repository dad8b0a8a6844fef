// Faked methods and Return() without a value, for results of every kind. The
// values wanted are what the language itself gives for `T{}` and `T()`.
#include "prelude.hpp"
#include "fakeit.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace fakeit;

template<class R> using Place = MockingContext<R, int, std::string>;

namespace kinds {
    struct Plain { int a; double b; };
    struct Small { short a; char b; };
    struct Wide { long a[6]; };
    struct Preset { int a = 7; int b = 9; };
    struct Custom { int a; Custom(); Custom(const Custom &); ~Custom(); };
    struct Mixed { int a; std::string s; };
    struct Multi { int a; Multi(int = 3, char = 'x'); Multi(const Multi &); ~Multi(); };
    struct NoDefault { int a; explicit NoDefault(int); NoDefault(const NoDefault &); ~NoDefault(); };
    struct Abstract { virtual void f() = 0; virtual ~Abstract(); };
    struct Derived : Custom { std::vector<int> v; };
    enum Old { first = 4, second };
    enum class Scoped : unsigned char { a = 1, b };
    struct Explicit { int a; explicit Explicit(); Explicit(const Explicit &); };
}
using namespace kinds;

#define VALUE(N, ...) \
    void w_fake_##N(Place<__VA_ARGS__> &a) { Fake(a); } \
    void w_ret_##N(Place<__VA_ARGS__> &a) { When(a).Return(); } \
    void w_always_##N(Place<__VA_ARGS__> &a) { When(a).AlwaysReturn(); }
#define BUILD(N, ...) \
    VALUE(N, __VA_ARGS__) \
    typename fakeit::naked_type<__VA_ARGS__>::type &w_want_##N() { static typename fakeit::naked_type<__VA_ARGS__>::type v{}; return v; } \
    typename fakeit::naked_type<__VA_ARGS__>::type &w_want_##N##_2() { typedef typename fakeit::naked_type<__VA_ARGS__>::type T; static T v = T(); return v; } \
    typename fakeit::naked_type<__VA_ARGS__>::type *w_want_##N##_3() { typedef typename fakeit::naked_type<__VA_ARGS__>::type T; return new T{}; }

BUILD(v_bool, bool)
BUILD(v_char, char)
BUILD(v_schar, signed char)
BUILD(v_uchar, unsigned char)
BUILD(v_wchar, wchar_t)
BUILD(v_char16, char16_t)
BUILD(v_char32, char32_t)
BUILD(v_short, short)
BUILD(v_ushort, unsigned short)
BUILD(v_int, int)
BUILD(v_uint, unsigned)
BUILD(v_long, long)
BUILD(v_ulong, unsigned long)
BUILD(v_llong, long long)
BUILD(v_ullong, unsigned long long)
BUILD(v_float, float)
BUILD(v_double, double)
BUILD(v_ldouble, long double)
#if __cplusplus > 201703L
BUILD(v_char8, char8_t)
#endif
BUILD(v_nullptr, std::nullptr_t)
BUILD(v_ptr, int *)
BUILD(v_cptr, const char *)
BUILD(v_classptr, NoDefault *)
BUILD(v_fn, void (*)(int))
BUILD(v_data, int Plain::*)
BUILD(v_method, void (Abstract::*)())
BUILD(v_old, Old)
BUILD(v_scoped, Scoped)
BUILD(v_plain, Plain)
BUILD(v_small, Small)
BUILD(v_wide, Wide)
BUILD(v_preset, Preset)
BUILD(v_custom, Custom)
BUILD(v_mixed, Mixed)
BUILD(v_multi, Multi)
BUILD(v_derived, Derived)
BUILD(v_explicit, Explicit)
BUILD(v_string, std::string)
BUILD(v_wstring, std::wstring)
BUILD(v_vector, std::vector<int>)
BUILD(v_map, std::map<int, std::string>)
BUILD(v_shared, std::shared_ptr<int>)
BUILD(v_pair, std::pair<int, bool>)
BUILD(v_constint, const int)
BUILD(v_constclass, const Custom)
BUILD(r_int, int &)
BUILD(r_bool, const bool &)
BUILD(r_custom, Custom &)
BUILD(r_ccustom, const Custom &)
BUILD(r_string, const std::string &)
BUILD(r_ptr, int *&)
VALUE(n_nodefault, NoDefault &)
VALUE(n_cnodefault, const NoDefault &)
VALUE(n_abstract, Abstract &)
VALUE(n_cabstract, const Abstract &)
VALUE(x_nodefault, NoDefault)
VALUE(x_constnodefault, const NoDefault)
VALUE(e_void, void)

void w_many3(MockingContext<int, int> &k, MockingContext<std::string> &l, MockingContext<void, int &> &m) { Fake(k, l, m); }
void w_many2(Place<int> &k, Place<int> &l) { Fake(k, l); }
void w_voidmany(Place<void> &a) { When(a).Return(3_Times); }
