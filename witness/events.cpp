// Delivery of events: the context, the default context and its set / reset functions.
#include "prelude.hpp"
#include "fakeit.hpp"

typedef fakeit::DefaultFakeit Ctx;

extern "C" {
void w_set_adapter(Ctx &c, fakeit::EventHandler &h) { c.setTestingFrameworkAdapter(h); }
void w_reset_adapter(Ctx &c) { c.resetTestingFrameworkAdapter(); }
void w_set_formatter(Ctx &c, fakeit::EventFormatter &f) { c.setCustomEventFormatter(f); }
void w_reset_formatter(Ctx &c) { c.resetCustomEventFormatter(); }
void w_add(Ctx &c, fakeit::EventHandler &h) { c.addEventHandler(h); }
void w_clear(Ctx &c) { c.clearEventHandlers(); }
const char *w_get_file(const fakeit::SequenceVerificationEvent &e) { return e.file(); }
int w_get_line(const fakeit::SequenceVerificationEvent &e) { return e.line(); }
Ctx &w_instance() { return Fakeit; }
}
