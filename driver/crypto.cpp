#include "drv.hpp"
#include <eosio/crypto.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_json.hpp>
#include "eosio/abieos.h"
using namespace eosio;
OP(b58_enc) { Exact e(a[0]); auto t = to_base58(e.begin(), e.n); o.str(t); Exact x(t); o.vec(from_base58(x.sv())); }
OP(b58_dec) { Exact e(a[0]); o.vec(from_base58(e.sv())); }
template <typename F> void fam(const std::string& n, F f) {
   if (n == "pub") return f((public_key*)0, public_key_to_string, public_key_from_string, "public_key");
   if (n == "pvt") return f((private_key*)0, private_key_to_string, private_key_from_string, "private_key");
   return f((signature*)0, signature_to_string, signature_from_string, "signature");
}
static abieos_context* ctx() { static thread_local abieos_context* c = [] { auto* c = abieos_create(); need(abieos_set_abi(c, 1, "{\"version\":\"eosio::abi/1.1\"}")); return c; }(); return c; }
OP(key_print) { fam(a[0], [&](auto* p, auto ts, auto fs, const char* ty) { using T = std::decay_t<decltype(*p)>;
   T k{}; Exact e(a[1]); input_stream in(e.begin(), e.n); from_bin(k, in); need(in.remaining() == 0);
   auto t = ts(k); o.str(t); auto j = convert_to_json(k); o.str(j);
   { Exact x(t); o.vec(convert_to_bin(T(fs(x.sv())))); }
   { CStr c(j); json_token_stream s(c.get()); T w{}; from_json(w, s); s.get_end(); o.vec(convert_to_bin(w)); }
   auto* r = abieos_bin_to_json(ctx(), 1, ty, e.begin(), e.n); need(r, abieos_get_error(ctx())); o.str(r); std::string rr = r;
   need(abieos_json_to_bin_reorderable(ctx(), 1, ty, rr.c_str())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx()));
}); }
OP(key_parse) { fam(a[0], [&](auto* p, auto ts, auto fs, const char* ty) { using T = std::decay_t<decltype(*p)>; Exact e(a[1]); o.vec(convert_to_bin(T(fs(e.sv())))); }); }
OP(key_abi) { fam(a[0], [&](auto* p, auto ts, auto fs, const char* ty) { std::string q = "\"" + a[1] + "\""; need(abieos_json_to_bin(ctx(), 1, ty, q.c_str()), abieos_get_error(ctx())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx())); }); }
OP(key_decode) { fam(a[0], [&](auto* p, auto ts, auto fs, const char* ty) { using T = std::decay_t<decltype(*p)>; T k{}; Exact e(a[1]); input_stream in(e.begin(), e.n); from_bin(k, in); o.vec(convert_to_bin(k)); o.num(uint32_t(in.remaining())); }); }
