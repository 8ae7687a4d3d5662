#include "drv.hpp"
#include <eosio/name.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_json.hpp>
#include "eosio/abieos.h"
using namespace eosio;
OP(name_str) { o.str(name_to_string(num<uint64_t>(a[0]))); }
OP(name_obj_str) { name n{ num<uint64_t>(a[0]) }; o.str(n.to_string()); o.str(std::string(n)); o.flag(bool(n)); o.num(static_cast<uint64_t>(static_cast<name::raw>(n))); }
OP(name_lenient) { Exact e(a[0]); o.num(string_to_name(e.sv())); o.num(string_to_name(e.begin(), int(e.n))); o.num(string_to_name(std::string(a[0]))); }
OP(name_lenient_c) { CStr c(a[0]); o.num(string_to_name(c.get())); }
OP(name_try_strict) { Exact e(a[0]); auto r = try_string_to_name_strict(e.sv()); need(bool(r)); o.num(r.value()); }
OP(name_strict) { Exact e(a[0]); o.num(string_to_name_strict(e.sv())); }
OP(name_ctor) { Exact e(a[0]); o.num(name{ e.sv() }.value); }
OP(name_hash) { Exact e(a[0]); o.num(hash_name(e.sv())); }
OP(name_digit) { o.num(name::char_to_value(a[0][0])); }
OP(name_parts) { name n{ num<uint64_t>(a[0]) }; o.num(n.length()); o.num(n.prefix().value); o.num(n.suffix().value); }
OP(name_cmp) { name x{ num<uint64_t>(a[0]) }, y{ num<uint64_t>(a[1]) };
   o.flag(x < y); o.flag(x == y); o.flag(x > y); o.flag(x <= y); o.flag(x >= y); o.flag(x != y); }
OP(name_to_json) { o.str(convert_to_json(name{ num<uint64_t>(a[0]) })); }
OP(name_from_json) { CStr c(a[0]); name n; json_token_stream s(c.get()); from_json(n, s); o.num(n.value); }
OP(name_capi) { auto* c = abieos_create(); CStr s(a[0]); uint64_t v = abieos_string_to_name(c, s.get()); o.num(v);
   o.str(abieos_name_to_string(c, v)); abieos_destroy(c); }
OP(name_capi_str) { auto* c = abieos_create(); o.str(abieos_name_to_string(c, num<uint64_t>(a[0]))); abieos_destroy(c); }
