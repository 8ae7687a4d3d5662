#include "drv.hpp"
#include <eosio/asset.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_string.hpp>
#include "eosio/abieos.h"
using namespace eosio;
template <typename T> T parse_json(const std::string& text) { std::string q = '"' + text + '"'; CStr c(q); T v; json_token_stream s(c.get()); from_json(v, s); s.get_end(); return v; }
static std::string as16(int64_t a, uint64_t s) { std::string r((char*)&a, 8); r.append((char*)&s, 8); return r; }
static asset mk(const std::string& a, const std::string& s) { asset r; r.amount = num<int64_t>(a); r.symbol = symbol{ num<uint64_t>(s) }; return r; }
static void put(Out& o, const asset& x) { o.num(x.amount); o.num(x.symbol.value); }
OP(code_parse) { Exact e(a[0]); uint64_t v = 1; need(string_to_symbol_code(v, e.begin(), e.end())); o.num(v); }
OP(code_json) { o.num(parse_json<symbol_code>(a[0]).value); }
OP(code_ctor) { Exact e(a[0]); o.num(symbol_code(e.sv()).raw()); }
OP(sym_parse) { Exact e(a[0]); uint64_t v = 1; need(string_to_symbol(v, e.begin(), e.end())); o.num(v); }
OP(sym_pos) { Exact e(a[0]); uint64_t v = 1; const char* p = e.begin(); need(string_to_symbol(v, p, e.end(), false)); o.num(v); o.num(uint32_t(p - e.begin())); }
OP(sym_json) { o.num(parse_json<symbol>(a[0]).value); }
OP(asset_parse) { Exact e(a[0]); int64_t am = 1; uint64_t s = 1; need(string_to_asset(am, s, e.begin(), e.end())); o.str(as16(am, s)); }
OP(asset_pos) { Exact e(a[0]); int64_t am = 1; uint64_t s = 1; const char* p = e.begin(); need(string_to_asset(am, s, p, e.end(), false)); o.str(as16(am, s)); o.num(uint32_t(p - e.begin())); }
OP(asset_json) { auto x = parse_json<asset>(a[0]); o.str(as16(x.amount, x.symbol.value)); }
OP(asset_string) { Exact e(a[0]); auto x = convert_from_string<asset>(e.sv()); o.str(as16(x.amount, x.symbol.value)); }
OP(code_print) { symbol_code c(num<uint64_t>(a[0])); o.str(symbol_code_to_string(c.raw())); o.str(c.to_string()); o.str(convert_to_json(c)); o.num(uint8_t(c.length())); o.flag(c.is_valid()); o.flag(bool(c)); }
OP(code_valid) { auto v = num<uint64_t>(a[0]); o.flag(symbol_code(v).is_valid()); o.flag(symbol(symbol_code(v), 4).is_valid()); o.flag(symbol((v << 8) | 9).is_valid()); }
OP(sym_print) { auto v = num<uint64_t>(a[0]); symbol s(v); o.str(symbol_to_string(v)); o.str(s.to_string()); o.str(convert_to_json(s)); o.num(uint8_t(s.precision())); o.num(s.code().raw()); o.flag(s.is_valid()); o.num(symbol(s.code(), s.precision()).raw());
   o.num(symbol(s.code().to_string(), s.precision()).raw()); }
OP(asset_print) { auto x = mk(a[0], a[1]); o.str(asset_to_string(x.amount, x.symbol.value)); o.str(x.to_string()); auto j = convert_to_json(x); o.str(j); CStr c(j); json_token_stream s(c.get()); asset y; from_json(y, s); o.str(as16(y.amount, y.symbol.value)); }
OP(ext_print) { extended_asset x; x.quantity = mk(a[0], a[1]); x.contract = name{ num<uint64_t>(a[2]) }; o.str(x.to_string()); }
OP(sym_cmp) { symbol x(num<uint64_t>(a[0])), y(num<uint64_t>(a[1])); o.flag(x < y); o.flag(x == y); o.flag(x > y); o.flag(x <= y); o.flag(x >= y); o.flag(x != y); }
static abieos_context* ctx() { static thread_local abieos_context* c = [] { auto* c = abieos_create(); need(abieos_set_abi(c, 1, "{\"version\":\"eosio::abi/1.1\"}")); return c; }(); return c; }
OP(sa_abi) { std::string j = '"' + a[1] + '"'; CStr c(j); need(abieos_json_to_bin_reorderable(ctx(), 1, a[0].c_str(), c.get()), abieos_get_error(ctx())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx()));
   need(abieos_json_to_bin(ctx(), 1, a[0].c_str(), c.get()), abieos_get_error(ctx())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx()));
   Exact e(o[1]); auto* t = abieos_bin_to_json(ctx(), 1, a[0].c_str(), e.begin(), e.n); need(t, abieos_get_error(ctx())); o.str(t); }
// arithmetic
#define AB auto x = mk(a[0], a[1]), y = mk(a[2], a[3])
#define AI auto x = mk(a[0], a[1]); auto y = num<int64_t>(a[2])
OP(as_add) { AB; put(o, x + y); }
OP(as_sub) { AB; put(o, x - y); }
OP(as_add_to) { AB; auto& z = (x += y); put(o, x); need(&z == &x); }
OP(as_sub_from) { AB; auto& z = (x -= y); put(o, x); need(&z == &x); }
OP(as_div) { AB; o.num(int64_t(x / y)); }
OP(as_eq) { AB; o.flag(x == y); o.flag(x != y); }
OP(as_lt) { AB; o.flag(x < y); } OP(as_le) { AB; o.flag(x <= y); } OP(as_gt) { AB; o.flag(x > y); } OP(as_ge) { AB; o.flag(x >= y); }
OP(as_mul) { AI; put(o, x * y); } OP(mul_as) { AI; put(o, y * x); } OP(as_mul_by) { AI; x *= y; put(o, x); }
OP(as_idiv) { AI; put(o, x / y); } OP(as_idiv_by) { AI; x /= y; put(o, x); }
OP(as_neg) { AI; put(o, -x); }
#define EX extended_asset x, y; x.quantity = mk(a[0], a[1]); y.quantity = mk(a[2], a[3]); x.contract = name{ num<uint64_t>(a[4]) }; y.contract = name{ num<uint64_t>(a[5]) }
static void put(Out& o, const extended_asset& x) { put(o, x.quantity); o.num(x.contract.value); }
OP(ex_add) { EX; put(o, x + y); } OP(ex_sub) { EX; put(o, x - y); } OP(ex_add_to) { EX; x += y; put(o, x); } OP(ex_sub_from) { EX; x -= y; put(o, x); }
OP(ex_lt) { EX; o.flag(x < y); } OP(ex_le) { EX; o.flag(x <= y); } OP(ex_ge) { EX; o.flag(x >= y); } OP(ex_eq) { EX; o.flag(x == y); o.flag(x != y); }
OP(ex_neg) { EX; put(o, -x); }
OP(as_make) { put(o, asset(num<int64_t>(a[0]), symbol(num<uint64_t>(a[1])))); }
OP(ex_make) { extended_asset x(num<int64_t>(a[0]), extended_symbol(symbol(num<uint64_t>(a[1])), name{ num<uint64_t>(a[2]) })); put(o, x); auto s = x.get_extended_symbol(); o.num(s.get_symbol().value); o.num(s.get_contract().value); }
OP(as_set) { auto x = mk(a[0], a[1]); x.set_amount(num<int64_t>(a[2])); o.num(x.amount); }
OP(as_valid) { auto x = mk(a[0], a[1]); o.flag(x.is_amount_within_range()); o.flag(x.is_valid()); o.flag(x.symbol.is_valid()); }
