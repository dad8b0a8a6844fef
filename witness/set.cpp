// ReturnAndSet: values for parameters by position and by placeholder; compiled to a graph, never run.
#include "prelude.hpp"
#include <fakeit.hpp>
#include <string>
using namespace fakeit;
using namespace fakeit::placeholders;

struct I3 { virtual std::string f(int &, std::string &, int *) = 0; virtual void v(int &, std::string &, int *) = 0; virtual int m(int, int &, const std::string &, std::string *) = 0; };
using P = MethodStubbingProgress<std::string, int &, std::string &, int *>;
using V = MethodStubbingProgress<void, int &, std::string &, int *>;
using M = MethodStubbingProgress<int, int, int &, const std::string &, std::string *>;
using S = std::string;

extern "C" void w_t_p_pos_1(P &p, S &&r, int &&a) { p.ReturnAndSet(std::move(r), std::move(a)); }
extern "C" void w_t_p_pos_12(P &p, S &&r, int &&a, S &&b) { p.ReturnAndSet(std::move(r), std::move(a), std::move(b)); }
extern "C" void w_t_p_pos_123(P &p, S &&r, int &&a, S &&b, int &&c) { p.ReturnAndSet(std::move(r), std::move(a), std::move(b), std::move(c)); }
extern "C" void w_t_p_ph_1(P &p, S &&r, int &&a) { p.ReturnAndSet(std::move(r), _1 <= std::move(a)); }
extern "C" void w_t_p_ph_2(P &p, S &&r, S &&b) { p.ReturnAndSet(std::move(r), _2 <= std::move(b)); }
extern "C" void w_t_p_ph_3(P &p, S &&r, int &&c) { p.ReturnAndSet(std::move(r), _3 <= std::move(c)); }
extern "C" void w_t_p_ph_12(P &p, S &&r, int &&a, S &&b) { p.ReturnAndSet(std::move(r), _1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_p_ph_13(P &p, S &&r, int &&a, int &&c) { p.ReturnAndSet(std::move(r), _1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_p_ph_21(P &p, S &&r, S &&b, int &&a) { p.ReturnAndSet(std::move(r), _2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_p_ph_23(P &p, S &&r, S &&b, int &&c) { p.ReturnAndSet(std::move(r), _2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_p_ph_31(P &p, S &&r, int &&c, int &&a) { p.ReturnAndSet(std::move(r), _3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_p_ph_32(P &p, S &&r, int &&c, S &&b) { p.ReturnAndSet(std::move(r), _3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_p_ph_123(P &p, S &&r, int &&a, S &&b, int &&c) { p.ReturnAndSet(std::move(r), _1 <= std::move(a), _2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_p_ph_132(P &p, S &&r, int &&a, int &&c, S &&b) { p.ReturnAndSet(std::move(r), _1 <= std::move(a), _3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_p_ph_213(P &p, S &&r, S &&b, int &&a, int &&c) { p.ReturnAndSet(std::move(r), _2 <= std::move(b), _1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_p_ph_231(P &p, S &&r, S &&b, int &&c, int &&a) { p.ReturnAndSet(std::move(r), _2 <= std::move(b), _3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_p_ph_312(P &p, S &&r, int &&c, int &&a, S &&b) { p.ReturnAndSet(std::move(r), _3 <= std::move(c), _1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_p_ph_321(P &p, S &&r, int &&c, S &&b, int &&a) { p.ReturnAndSet(std::move(r), _3 <= std::move(c), _2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_pa_pos_1(P &p, S &&r, int &&a) { p.AlwaysReturnAndSet(std::move(r), std::move(a)); }
extern "C" void w_t_pa_pos_12(P &p, S &&r, int &&a, S &&b) { p.AlwaysReturnAndSet(std::move(r), std::move(a), std::move(b)); }
extern "C" void w_t_pa_pos_123(P &p, S &&r, int &&a, S &&b, int &&c) { p.AlwaysReturnAndSet(std::move(r), std::move(a), std::move(b), std::move(c)); }
extern "C" void w_t_pa_ph_1(P &p, S &&r, int &&a) { p.AlwaysReturnAndSet(std::move(r), _1 <= std::move(a)); }
extern "C" void w_t_pa_ph_2(P &p, S &&r, S &&b) { p.AlwaysReturnAndSet(std::move(r), _2 <= std::move(b)); }
extern "C" void w_t_pa_ph_3(P &p, S &&r, int &&c) { p.AlwaysReturnAndSet(std::move(r), _3 <= std::move(c)); }
extern "C" void w_t_pa_ph_12(P &p, S &&r, int &&a, S &&b) { p.AlwaysReturnAndSet(std::move(r), _1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_pa_ph_13(P &p, S &&r, int &&a, int &&c) { p.AlwaysReturnAndSet(std::move(r), _1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_pa_ph_21(P &p, S &&r, S &&b, int &&a) { p.AlwaysReturnAndSet(std::move(r), _2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_pa_ph_23(P &p, S &&r, S &&b, int &&c) { p.AlwaysReturnAndSet(std::move(r), _2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_pa_ph_31(P &p, S &&r, int &&c, int &&a) { p.AlwaysReturnAndSet(std::move(r), _3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_pa_ph_32(P &p, S &&r, int &&c, S &&b) { p.AlwaysReturnAndSet(std::move(r), _3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_pa_ph_123(P &p, S &&r, int &&a, S &&b, int &&c) { p.AlwaysReturnAndSet(std::move(r), _1 <= std::move(a), _2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_pa_ph_132(P &p, S &&r, int &&a, int &&c, S &&b) { p.AlwaysReturnAndSet(std::move(r), _1 <= std::move(a), _3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_pa_ph_213(P &p, S &&r, S &&b, int &&a, int &&c) { p.AlwaysReturnAndSet(std::move(r), _2 <= std::move(b), _1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_pa_ph_231(P &p, S &&r, S &&b, int &&c, int &&a) { p.AlwaysReturnAndSet(std::move(r), _2 <= std::move(b), _3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_pa_ph_312(P &p, S &&r, int &&c, int &&a, S &&b) { p.AlwaysReturnAndSet(std::move(r), _3 <= std::move(c), _1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_pa_ph_321(P &p, S &&r, int &&c, S &&b, int &&a) { p.AlwaysReturnAndSet(std::move(r), _3 <= std::move(c), _2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_v_pos_1(V &p, int &&a) { p.ReturnAndSet(std::move(a)); }
extern "C" void w_t_v_pos_12(V &p, int &&a, S &&b) { p.ReturnAndSet(std::move(a), std::move(b)); }
extern "C" void w_t_v_pos_123(V &p, int &&a, S &&b, int &&c) { p.ReturnAndSet(std::move(a), std::move(b), std::move(c)); }
extern "C" void w_t_v_ph_1(V &p, int &&a) { p.ReturnAndSet(_1 <= std::move(a)); }
extern "C" void w_t_v_ph_2(V &p, S &&b) { p.ReturnAndSet(_2 <= std::move(b)); }
extern "C" void w_t_v_ph_3(V &p, int &&c) { p.ReturnAndSet(_3 <= std::move(c)); }
extern "C" void w_t_v_ph_12(V &p, int &&a, S &&b) { p.ReturnAndSet(_1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_v_ph_13(V &p, int &&a, int &&c) { p.ReturnAndSet(_1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_v_ph_21(V &p, S &&b, int &&a) { p.ReturnAndSet(_2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_v_ph_23(V &p, S &&b, int &&c) { p.ReturnAndSet(_2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_v_ph_31(V &p, int &&c, int &&a) { p.ReturnAndSet(_3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_v_ph_32(V &p, int &&c, S &&b) { p.ReturnAndSet(_3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_v_ph_123(V &p, int &&a, S &&b, int &&c) { p.ReturnAndSet(_1 <= std::move(a), _2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_v_ph_132(V &p, int &&a, int &&c, S &&b) { p.ReturnAndSet(_1 <= std::move(a), _3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_v_ph_213(V &p, S &&b, int &&a, int &&c) { p.ReturnAndSet(_2 <= std::move(b), _1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_v_ph_231(V &p, S &&b, int &&c, int &&a) { p.ReturnAndSet(_2 <= std::move(b), _3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_v_ph_312(V &p, int &&c, int &&a, S &&b) { p.ReturnAndSet(_3 <= std::move(c), _1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_v_ph_321(V &p, int &&c, S &&b, int &&a) { p.ReturnAndSet(_3 <= std::move(c), _2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_va_pos_1(V &p, int &&a) { p.AlwaysReturnAndSet(std::move(a)); }
extern "C" void w_t_va_pos_12(V &p, int &&a, S &&b) { p.AlwaysReturnAndSet(std::move(a), std::move(b)); }
extern "C" void w_t_va_pos_123(V &p, int &&a, S &&b, int &&c) { p.AlwaysReturnAndSet(std::move(a), std::move(b), std::move(c)); }
extern "C" void w_t_va_ph_1(V &p, int &&a) { p.AlwaysReturnAndSet(_1 <= std::move(a)); }
extern "C" void w_t_va_ph_2(V &p, S &&b) { p.AlwaysReturnAndSet(_2 <= std::move(b)); }
extern "C" void w_t_va_ph_3(V &p, int &&c) { p.AlwaysReturnAndSet(_3 <= std::move(c)); }
extern "C" void w_t_va_ph_12(V &p, int &&a, S &&b) { p.AlwaysReturnAndSet(_1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_va_ph_13(V &p, int &&a, int &&c) { p.AlwaysReturnAndSet(_1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_va_ph_21(V &p, S &&b, int &&a) { p.AlwaysReturnAndSet(_2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_va_ph_23(V &p, S &&b, int &&c) { p.AlwaysReturnAndSet(_2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_va_ph_31(V &p, int &&c, int &&a) { p.AlwaysReturnAndSet(_3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_va_ph_32(V &p, int &&c, S &&b) { p.AlwaysReturnAndSet(_3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_va_ph_123(V &p, int &&a, S &&b, int &&c) { p.AlwaysReturnAndSet(_1 <= std::move(a), _2 <= std::move(b), _3 <= std::move(c)); }
extern "C" void w_t_va_ph_132(V &p, int &&a, int &&c, S &&b) { p.AlwaysReturnAndSet(_1 <= std::move(a), _3 <= std::move(c), _2 <= std::move(b)); }
extern "C" void w_t_va_ph_213(V &p, S &&b, int &&a, int &&c) { p.AlwaysReturnAndSet(_2 <= std::move(b), _1 <= std::move(a), _3 <= std::move(c)); }
extern "C" void w_t_va_ph_231(V &p, S &&b, int &&c, int &&a) { p.AlwaysReturnAndSet(_2 <= std::move(b), _3 <= std::move(c), _1 <= std::move(a)); }
extern "C" void w_t_va_ph_312(V &p, int &&c, int &&a, S &&b) { p.AlwaysReturnAndSet(_3 <= std::move(c), _1 <= std::move(a), _2 <= std::move(b)); }
extern "C" void w_t_va_ph_321(V &p, int &&c, S &&b, int &&a) { p.AlwaysReturnAndSet(_3 <= std::move(c), _2 <= std::move(b), _1 <= std::move(a)); }
extern "C" void w_t_p_ph_2l(P &p, S &&r, S &b) { p.ReturnAndSet(std::move(r), _2 <= b); }
extern "C" void w_t_p_pos_12l(P &p, S &&r, int &a, S &b) { p.ReturnAndSet(std::move(r), a, b); }
extern "C" void w_t_m_ph_2(M &p, int &&r, int &&a) { p.ReturnAndSet(std::move(r), _2 <= std::move(a)); }
extern "C" void w_t_m_ph_42(M &p, int &&r, S &&b, int &&a) { p.ReturnAndSet(std::move(r), _4 <= std::move(b), _2 <= std::move(a)); }

extern "C" void w_use() {
    Mock<I3> m;
    When(Method(m, f)).Return(S());
    When(Method(m, v)).Return();
    When(Method(m, m)).Return(1);
}
