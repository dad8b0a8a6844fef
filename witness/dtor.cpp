// Destructors that cannot be stubbed, and calls nobody expected.
#include "prelude.hpp"
#include "fakeit.hpp"
using namespace fakeit;

struct Bare { virtual int f(int) = 0; };
struct Guarded { virtual int f(int) = 0; virtual ~Guarded() {} };
struct Late : Guarded { virtual void g() = 0; };

void w_dt_fake(Mock<Bare> &m) { Fake(Dtor(m)); }
void w_dt_return(Mock<Bare> &m) { When(Dtor(m)).Return(); }
void w_dt_do(Mock<Bare> &m) { When(Dtor(m)).AlwaysDo([]() {}); }
void w_dt_assign(Mock<Bare> &m) { Dtor(m) = []() {}; }
void w_okdt_fake(Mock<Guarded> &m) { Fake(Dtor(m)); }
void w_okdt_return(Mock<Late> &m) { When(Dtor(m)).Return(); }

int w_use(Mock<Bare> &a, Mock<Guarded> &b, Mock<Late> &c) { Fake(Method(a, f), Method(b, f), Method(c, g)); return a.get().f(1); }
void w_make() { Mock<Guarded> b; Mock<Late> c; Fake(Method(b, f)); }
