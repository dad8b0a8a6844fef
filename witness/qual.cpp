// One stubbing expression per qualifier and per overload selector; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <new>
#include <type_traits>
using namespace fakeit;

struct Base {
    virtual ~Base() {}
    virtual int b(int) = 0;
    virtual int bc(int) const = 0;
};
struct Q : Base {
    virtual int n(int) = 0;
    virtual int c(int) const = 0;
    virtual int v(int) volatile = 0;
    virtual int cv(int) const volatile = 0;
    virtual int r(int) & = 0;
    virtual int cr(int) const & = 0;
    virtual int x(int) && = 0;
    virtual int cx(int) const && = 0;
    virtual const void z(int) = 0;
    virtual const void zc(int) const = 0;

    virtual int o() = 0;
    virtual int o() const = 0;
    virtual int o(int) = 0;
    virtual int o(int) const = 0;
    virtual int o(int, int) = 0;
    virtual int o(int, int) const = 0;
    virtual int o(double) const = 0;
    virtual int o(double) = 0;
    virtual int o(int &) = 0;
    virtual int o(const int *) const = 0;

    virtual int s(int) & = 0;
    virtual int s(int) const & = 0;
    virtual int s(int) && = 0;
    virtual int s(int) const && = 0;
    virtual int s(long) const && = 0;
    virtual int s(long) && = 0;
    virtual int s(long) const & = 0;
    virtual int s(long) & = 0;
};
typedef Mock<Q> M;
#define QUAL(name, R, T) \
    extern "C" void w_s_##name(void *at, M &m) { new (at) MockingContext<R, int>(m.stub<41>(&Q::name)); } \
    extern "C" void w_p_##name(void *at) { typedef T; new (at) P(&Q::name); }
QUAL(n, int, int (Q::*P)(int))
QUAL(c, int, int (Q::*P)(int) const)
QUAL(v, int, int (Q::*P)(int) volatile)
QUAL(cv, int, int (Q::*P)(int) const volatile)
QUAL(r, int, int (Q::*P)(int) &)
QUAL(cr, int, int (Q::*P)(int) const &)
QUAL(x, int, int (Q::*P)(int) &&)
QUAL(cx, int, int (Q::*P)(int) const &&)
QUAL(b, int, int (Base::*P)(int))
QUAL(bc, int, int (Base::*P)(int) const)
QUAL(z, void, const void (Q::*P)(int))
QUAL(zc, void, const void (Q::*P)(int) const)

#define SEL(name, sel, method, sig, quals, ...) \
    extern "C" void w_s_##name(void *at, M &mock) { new (at) MockingContext<__VA_ARGS__>(std::move(sel(mock, method, int sig))); } \
    extern "C" void w_p_##name(void *at) { typedef int (Q::*P) sig quals; new (at) P(static_cast<P>(&Q::method)); }
SEL(o0, OverloadedMethod, o, (), , int)
SEL(o0c, ConstOverloadedMethod, o, (), const, int)
SEL(o1, OverloadedMethod, o, (int), , int, int)
SEL(o1c, ConstOverloadedMethod, o, (int), const, int, int)
SEL(o2, OverloadedMethod, o, (int, int), , int, int, int)
SEL(o2c, ConstOverloadedMethod, o, (int, int), const, int, int, int)
SEL(od, OverloadedMethod, o, (double), , int, double)
SEL(odc, ConstOverloadedMethod, o, (double), const, int, double)
SEL(oi, OverloadedMethod, o, (int &), , int, int &)
SEL(opc, ConstOverloadedMethod, o, (const int *), const, int, const int *)
SEL(sr, RefOverloadedMethod, s, (int), &, int, int)
SEL(scr, ConstRefOverloadedMethod, s, (int), const &, int, int)
SEL(sx, RValRefOverloadedMethod, s, (int), &&, int, int)
SEL(scx, ConstRValRefOverloadedMethod, s, (int), const &&, int, int)
SEL(tr, RefOverloadedMethod, s, (long), &, int, long)
SEL(tcr, ConstRefOverloadedMethod, s, (long), const &, int, long)
SEL(tx, RValRefOverloadedMethod, s, (long), &&, int, long)
SEL(tcx, ConstRValRefOverloadedMethod, s, (long), const &&, int, long)
