// conversions for a loaded ABI, through the C API and through abi_type
#include "drv.hpp"
#include "abieos.hpp"
#include "eosio/abieos.h"
using namespace eosio;
namespace {
struct Loaded {
   abieos_context* c = abieos_create();
   abi x;
   Loaded(const std::string& text) {
      if (!text.empty() && text[0] == 14) { // a binary definition
         Exact b(text);
         need(abieos_set_abi_bin(c, 5, b.begin(), b.n), "ABI not accepted");
         input_stream s(b.begin(), b.n); abi_def def; from_bin(def, s); convert(def, x);
         return;
      }
      CStr t(text);
      need(abieos_set_abi(c, 5, t.get()), "ABI not accepted");
      json_token_stream s(t.get());
      abi_def def; from_json(def, s); convert(def, x);
   }
   ~Loaded() { abieos_destroy(c); }
};
Loaded& loaded(const std::string& text) {
   static std::map<std::string, std::unique_ptr<Loaded>> all;
   auto& p = all[text];
   if (!p) p = std::make_unique<Loaded>(text);
   return *p;
}
struct Refused : std::runtime_error { using runtime_error::runtime_error; };
void conv(const Args& a, Out& o, bool reorder) {
   auto& l = loaded(a[0]);
   CStr ty(a[1]), js(a[2]);
   bool ok = (reorder ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(l.c, 5, ty.get(), js.get());
   if (!ok) { std::string e = abieos_get_error(l.c); if (e.empty()) { o.str("no error text"); return; } throw Refused(e); }
   o.raw(abieos_get_bin_data(l.c), abieos_get_bin_size(l.c));
   auto* h = abieos_get_bin_hex(l.c);
   o.str(h ? h : "none");
}
void direct(const Args& a, Out& o, bool reorder) {
   auto& l = loaded(a[0]);
   Exact js(a[2]);
   auto* t = l.x.get_type(a[1]);
   o.vec(reorder ? t->json_to_bin_reorderable(js.sv()) : t->json_to_bin(js.sv()));
}
void back(Loaded& l, const Args& a, Out& o, const char* r) {
   if (!r) { std::string e = abieos_get_error(l.c); if (e.empty()) { o.str("no error text"); return; } throw Refused(e); }
   std::string j = r;
   o.str(j);
   CStr ty(a[1]), js(j);
   bool ok = abieos_json_to_bin(l.c, 5, ty.get(), js.get());
   o.flag(ok);
   o.raw(abieos_get_bin_data(l.c), ok ? abieos_get_bin_size(l.c) : 0);
}
}
OP(ord) { conv(a, o, false); }
OP(reo) { conv(a, o, true); }
OP(ordx) { direct(a, o, false); }
OP(reox) { direct(a, o, true); }
OP(dec) { auto& l = loaded(a[0]); CStr ty(a[1]); Exact e(a[2]); back(l, a, o, abieos_bin_to_json(l.c, 5, ty.get(), e.begin(), e.n)); }
OP(dech) {
   auto& l = loaded(a[0]); CStr ty(a[1]);
   std::string h; for (size_t i = 0; i < a[2].size(); ++i) { char b[3]; snprintf(b, 3, i & 1 ? "%02x" : "%02X", (unsigned char)a[2][i]); h += b; }
   CStr hx(h);
   back(l, a, o, abieos_hex_to_json(l.c, 5, ty.get(), hx.get()));
}
OP(decx) {
   auto& l = loaded(a[0]); Exact e(a[2]);
   auto* t = l.x.get_type(a[1]);
   input_stream in(e.begin(), e.n);
   auto j = t->bin_to_json(in);
   need(in.pos == in.end, "bytes left");
   o.str(j);
   std::vector<char> b; bool ok = true;
   try { b = t->json_to_bin(j); } catch (std::exception&) { ok = false; }
   o.flag(ok); o.vec(b);
}

// very many elements: builds a document of n elements, converts it both ways and back; gives what comes before the elements, and whether the rest is right
OP(big) {
   auto& l = loaded(a[0]); CStr ty(a[1]); size_t n = std::stoul(a[3]), sz = 1;
   std::string js, rest;
   auto list = [&](auto f) { js = "["; for (size_t i = 0; i < n; ++i) { if (i) js += ','; js += f(i); } js += ']'; };
   if (a[2] == "string") { rest.assign(n, 'x'); for (size_t i = 0; i < n; i += 7) rest[i] = 'A' + i % 26; js = '"' + rest + '"'; }
   else if (a[2] == "bytes") { js = '"'; for (size_t i = 0; i < n; ++i) { char b[3]; snprintf(b, 3, "%02X", unsigned(i * 7 & 255)); js += b; rest += char(i * 7); } js += '"'; }
   else if (a[2] == "int8[]") { list([&](size_t i) { rest += char(i % 100); return std::to_string(i % 100); }); }
   else if (a[2] == "uint16[]") { list([&](size_t i) { uint16_t v = i; rest.append((char*)&v, 2); return std::to_string(v); }); }
   else if (a[2] == "R[]") { list([&](size_t i) -> std::string { if (i % 3 == 0) { rest += '\0'; return "{\"o\":null}"; } rest += '\1'; rest += char(i % 2); return i % 2 ? "{\"o\":true}" : "{\"o\":false}"; }); }
   else need(false, "kind");
   CStr text(js);
   need(abieos_json_to_bin(l.c, 5, ty.get(), text.get()), "refused");
   std::string bin(abieos_get_bin_data(l.c), abieos_get_bin_size(l.c)), hex = abieos_get_bin_hex(l.c);
   need(bin.size() >= rest.size(), "too short");
   o.str(bin.substr(0, std::min<size_t>(10, bin.size() - rest.size())));
   o.flag(bin.substr(bin.size() - rest.size()) == rest);
   o.flag(hex.size() == 2 * bin.size());
   need(abieos_json_to_bin_reorderable(l.c, 5, ty.get(), text.get()), "refused by name");
   o.flag(bin == std::string(abieos_get_bin_data(l.c), abieos_get_bin_size(l.c)));
   Exact e(bin);
   auto* r = abieos_bin_to_json(l.c, 5, ty.get(), e.begin(), e.n);
   o.flag(r && js == r);
   CStr hx(hex);
   r = abieos_hex_to_json(l.c, 5, ty.get(), hx.get());
   o.flag(r && js == r);
   Exact cut(bin.substr(0, bin.size() - 1)), more(bin + 'x');
   o.flag(!n || !abieos_bin_to_json(l.c, 5, ty.get(), cut.begin(), cut.n));
   o.flag(!abieos_bin_to_json(l.c, 5, ty.get(), more.begin(), more.n));
}
