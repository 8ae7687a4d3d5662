#include "drv.hpp"
#include "abieos.hpp"
#include "eosio/abieos.h"
using namespace eosio;
static void sized(std::string& r, std::string_view s) { std::vector<char> v; push_varuint32(v, s.size()); r.append(v.data(), v.size()); r.append(s.data(), s.size()); }
static std::string describe(const abi_type* t) {
   std::string r; sized(r, t->name);
   if (auto* x = t->optional_of()) { r += 'o'; sized(r, x->name); }
   else if (auto* x = t->array_of()) { r += 'a'; sized(r, x->name); }
   else if (auto* x = t->extension_of()) { r += 'x'; sized(r, x->name); }
   else if (auto* x = t->as_struct()) { r += 's'; for (auto& f : x->fields) { sized(r, f.name); sized(r, f.type->name); } }
   else if (auto* x = t->as_variant()) { r += 'v'; for (auto& f : *x) { sized(r, f.name); sized(r, f.type->name); } }
   else if (std::holds_alternative<abi_type::builtin>(t->_data)) r += 'b';
   else r += '?';
   return r;
}
static bool load(abieos_context* c, uint64_t at, const Args& a) {
   if (a[0] == "json") { CStr t(a[1]); return abieos_set_abi(c, at, t.get()); }
   if (a[0] == "bin") { Exact e(a[1]); return abieos_set_abi_bin(c, at, e.begin(), e.n); }
   CStr t(a[1]); return abieos_set_abi_hex(c, at, t.get());
}
static void read(abi_def& def, const Args& a) {
   if (a[0] == "json") { CStr t(a[1]); json_token_stream s(t.get()); from_json(def, s); s.get_end(); return; }
   std::vector<char> d(a[1].begin(), a[1].end());
   if (a[0] == "hex") { d.clear(); need(unhex(std::back_inserter(d), a[1].begin(), a[1].end())); }
   input_stream s(d); from_bin(def, s);
}
struct Ctx { abieos_context* c = abieos_create(); ~Ctx() { abieos_destroy(c); } };
static void answers(Out& o, abi& x, abieos_context* c, const Args& a) {
   for (size_t i = 2; i < a.size(); ++i) {
      std::string q = a[i].substr(1);
      if (a[i][0] == 't') {
         try { o.str(describe(x.get_type(q))); } catch (std::exception&) { o.str("!"); }
      } else {
         auto* r = a[i][0] == 'A' ? abieos_get_type_for_action(c, 7, num<uint64_t>(q)) : abieos_get_type_for_table(c, 7, num<uint64_t>(q));
         if (!r) need(abieos_get_error(c)[0], "no error text");
         o.str(r ? std::string("=") + r : "!");
      }
   }
}
OP(abi_load) {
   Ctx c;
   bool ok = load(c.c, 7, a);
   if (!ok) need(abieos_get_error(c.c)[0], "no error text");
   o.flag(ok);
   if (!ok) return;
   abi x; abi_def def; read(def, a); convert(def, x);
   answers(o, x, c.c, a);
}
OP(abi_export) {
   Ctx c;
   bool ok = load(c.c, 7, a);
   o.flag(ok);
   if (!ok) return;
   abi x; abi_def def; read(def, a); convert(def, x);
   abi_def out; convert(x, out);
   // through its binary form, into the context and as a C++ object
   auto bin = convert_to_bin(out);
   need(abieos_set_abi_bin(c.c, 8, bin.data(), bin.size()), abieos_get_error(c.c));
   abi_def again; convert_from_bin(again, bin);
   abi y; convert(again, y);
   answers(o, y, c.c, a);
   // and the same after the original has been used
   Out used, later; answers(used, x, c.c, a);
   abi_def out2; convert(x, out2);
   abi z; convert(out2, z);
   answers(later, z, c.c, a);
   need(static_cast<std::vector<std::string>&>(later) == std::vector<std::string>(o.begin() + 1, o.end()), "exported after use: another meaning");
}
