#include "drv.hpp"
#include <eosio/varint.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_json.hpp>
#include <eosio/abieos_numeric.hpp>
#include "eosio/abieos.h"
using namespace eosio;
template <typename T> struct raw_of { static T& get(T& t) { return t; } };
template <> struct raw_of<varuint32> { static uint32_t& get(varuint32& t) { return t.value; } };
template <> struct raw_of<varint32> { static int32_t& get(varint32& t) { return t.value; } };
template <typename F> void with_type(const std::string& n, F f) {
   if (n == "int8") return f((int8_t*)0); if (n == "uint8") return f((uint8_t*)0); if (n == "int16") return f((int16_t*)0); if (n == "uint16") return f((uint16_t*)0);
   if (n == "int32") return f((int32_t*)0); if (n == "uint32") return f((uint32_t*)0); if (n == "int64") return f((int64_t*)0); if (n == "uint64") return f((uint64_t*)0);
   if (n == "int128") return f((__int128*)0); if (n == "uint128") return f((unsigned __int128*)0); if (n == "varuint32") return f((varuint32*)0); if (n == "varint32") return f((varint32*)0);
   abort();
}
OP(int_from_json) { with_type(a[0], [&](auto* p) { using T = std::decay_t<decltype(*p)>; T v{}; CStr c(a[1]); json_token_stream s(c.get()); from_json(v, s); s.get_end(); o.num(raw_of<T>::get(v)); }); }
OP(int_to_json) { with_type(a[0], [&](auto* p) { using T = std::decay_t<decltype(*p)>; T v{}; memcpy(&raw_of<T>::get(v), a[1].data(), a[1].size());
   auto t = convert_to_json(v); o.str(t); o.str(format_json(v)); CStr c(t); json_token_stream s(c.get()); T w{}; from_json(w, s); s.get_end(); o.num(raw_of<T>::get(w)); }); }
static abieos_context* ctx() { static thread_local abieos_context* c = [] { auto* c = abieos_create(); need(abieos_set_abi(c, 1, "{\"version\":\"eosio::abi/1.1\"}")); return c; }(); return c; }
static void capi(const Args& a, Out& o, bool reorder) { CStr c(a[1]); need(reorder ? abieos_json_to_bin_reorderable(ctx(), 1, a[0].c_str(), c.get()) : abieos_json_to_bin(ctx(), 1, a[0].c_str(), c.get()), abieos_get_error(ctx()));
   o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx())); }
OP(int_abi) { capi(a, o, false); Exact e(o[0]); capi(a, o, true); auto* j = abieos_bin_to_json(ctx(), 1, a[0].c_str(), e.begin(), e.n); need(j, abieos_get_error(ctx())); o.str(j); }
template <int N> void d2b(const Args& a, Out& o) { std::array<uint8_t, N> r; for (auto& x : r) x = 0x77; abieos::decimal_to_binary<N>(r, a[1]); o.raw(r.data(), N); }
OP(dec_to_bin) { switch (a[0][0]) { case 1: return d2b<1>(a, o); case 8: return d2b<8>(a, o); case 16: return d2b<16>(a, o); default: return d2b<32>(a, o); } }
template <int N> void b2d(const Args& a, Out& o) { std::array<uint8_t, N> r; memcpy(r.data(), a[0].data(), N); o.str(abieos::binary_to_decimal<N>(r)); o.flag(abieos::is_negative<N>(r)); abieos::negate<N>(r); o.raw(r.data(), N); }
OP(bin_to_dec) { switch (a[0].size()) { case 1: return b2d<1>(a, o); case 8: return b2d<8>(a, o); case 16: return b2d<16>(a, o); default: return b2d<32>(a, o); } }
