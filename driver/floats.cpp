#include "drv.hpp"
#include <eosio/float.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_json.hpp>
#include "eosio/abieos.h"
using namespace eosio;
template <typename F> void with_type(const std::string& n, F f) { if (n == "float32") return f(float()); return f(double()); }
static abieos_context* ctx() { static thread_local abieos_context* c = [] { auto* c = abieos_create(); need(abieos_set_abi(c, 1, "{\"version\":\"eosio::abi/1.1\"}")); return c; }(); return c; }
OP(flt_parse) { with_type(a[0], [&](auto v) { CStr c(a[1]); json_token_stream s(c.get()); from_json(v, s); s.get_end(); o.num(v); }); }
OP(flt_abi) { need(abieos_json_to_bin(ctx(), 1, a[0].c_str(), a[1].c_str()), abieos_get_error(ctx())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx())); }
OP(flt_print) { with_type(a[0], [&](auto v) { memcpy(&v, a[1].data(), sizeof(v)); auto t = convert_to_json(v); o.str(t); o.str(format_json(v));
   Exact e(a[1]); auto* j = abieos_bin_to_json(ctx(), 1, a[0].c_str(), e.begin(), e.n); need(j, abieos_get_error(ctx())); std::string js = j; o.str(js);
   { auto w = v; CStr c(t); json_token_stream s(c.get()); from_json(w, s); s.get_end(); o.num(w); }
   need(abieos_json_to_bin_reorderable(ctx(), 1, a[0].c_str(), js.c_str()), abieos_get_error(ctx())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx())); }); }
