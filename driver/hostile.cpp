// hostile input at the entry points: what comes back, and what it cost
#include "drv.hpp"
#include "abieos.hpp"
#include "eosio/abieos.h"
using namespace eosio;
namespace {
struct Ctx { abieos_context* c = abieos_create(); ~Ctx() { abieos_destroy(c); } };
bool set(abieos_context* c, const std::string& fmt, const std::string& data) {
   Exact e(data); CStr t(data);
   return fmt == "json" ? abieos_set_abi(c, 1, t.get()) : fmt == "bin" ? abieos_set_abi_bin(c, 1, e.begin(), e.n) : abieos_set_abi_hex(c, 1, t.get());
}
void answered(abieos_context* c, bool ok, Out& o) { auto* e = abieos_get_error(c); need(ok || (e && e[0]), "no error text"); o.flag(ok); }
}
// a definition: format, data ; then a type is asked for
OP(h_load) {
   Ctx c; bool ok = set(c.c, a[0], a[1]); answered(c.c, ok, o);
   if (!ok) return;
   CStr t(a[2]); 
   ok = abieos_json_to_bin(c.c, 1, t.get(), "null"); o.flag(ok);
}
// the definition as an object
OP(h_def) {
   abi_def d; Exact e(a[1]);
   try {
      if (a[0] == "json") { CStr t(a[1]); json_token_stream s(t.get()); from_json(d, s); }
      else { input_stream s(e.begin(), e.n); from_bin(d, s); }
      abi x; convert(d, x); abi_def back; convert(x, back); auto b = convert_to_bin(back); o.flag(true); o.num(uint32_t(b.size()));
   } catch (std::exception& ex) { need(ex.what()[0], "no error text"); o.flag(false); }
}
// format, definition, type, text
void text(const Args& a, Out& o, bool reorder) {
   Ctx c; need(set(c.c, a[0], a[1]), abieos_get_error(c.c));
   CStr ty(a[2]), t(a[3]);
   bool ok = (reorder ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(c.c, 1, ty.get(), t.get());
   answered(c.c, ok, o);
   if (ok) { need(abieos_get_bin_hex(c.c), "hex"); o.raw(abieos_get_bin_data(c.c), abieos_get_bin_size(c.c)); }
}
OP(h_ord) { text(a, o, false); }
OP(h_reo) { text(a, o, true); }
OP(h_bin) {
   Ctx c; need(set(c.c, a[0], a[1]), abieos_get_error(c.c));
   CStr ty(a[2]); Exact e(a[3]);
   auto* r = abieos_bin_to_json(c.c, 1, ty.get(), e.begin(), e.n);
   answered(c.c, r, o); if (r) o.str(r);
}
OP(h_hex) {
   Ctx c; need(set(c.c, a[0], a[1]), abieos_get_error(c.c));
   CStr ty(a[2]), h(a[3]);
   auto* r = abieos_hex_to_json(c.c, 1, ty.get(), h.get());
   answered(c.c, r, o); if (r) o.str(r);
}
