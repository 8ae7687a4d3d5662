#include "drv.hpp"
#include <eosio/time.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
#include "eosio/abieos.h"
using namespace eosio;
template <typename T> T parse_json(const std::string& text) { std::string q = '"' + text + '"'; CStr c(q); T v; json_token_stream s(c.get()); from_json(v, s); s.get_end(); return v; }
static time_point tp(const std::string& s) { return time_point(microseconds(num<int64_t>(s))); }
OP(tp_print) { auto v = num<uint64_t>(a[0]); o.str(microseconds_to_str(v)); o.str(convert_to_json(tp(a[0]))); o.str(format_json(tp(a[0]))); }
OP(tps_print) { o.str(convert_to_json(time_point_sec(num<uint32_t>(a[0])))); }
OP(bt_print) { o.str(convert_to_json(block_timestamp(num<uint32_t>(a[0])))); }
OP(tp_parse) { Exact e(a[0]); uint64_t r = 7; need(string_to_utc_microseconds(r, e.begin(), e.end())); o.num(r); }
OP(tps_parse) { Exact e(a[0]); uint32_t r = 7; need(string_to_utc_seconds(r, e.begin(), e.end())); o.num(r); }
OP(tp_json) { o.num(parse_json<time_point>(a[0]).elapsed.count()); }
OP(tps_json) { o.num(parse_json<time_point_sec>(a[0]).utc_seconds); }
OP(bt_json) { o.num(parse_json<block_timestamp>(a[0]).slot); }
OP(tp_conv) { auto t = tp(a[0]); time_point_sec s(t); o.num(t.sec_since_epoch()); o.num(s.sec_since_epoch()); o.num(time_point(s).time_since_epoch().count());
   block_timestamp b(t); o.num(b.slot); o.num(b.to_time_point().elapsed.count()); o.num(t.time_since_epoch().to_seconds()); }
OP(tps_conv) { time_point_sec s(num<uint32_t>(a[0])); o.num(time_point(s).elapsed.count()); block_timestamp b(s); o.num(b.slot); o.num(time_point(b).elapsed.count()); }
OP(bt_conv) { block_timestamp b(num<uint32_t>(a[0])); o.num(b.to_time_point().elapsed.count()); o.num(time_point(b).elapsed.count()); o.num(block_timestamp(time_point(b)).slot); }
OP(bt_next) { o.num(block_timestamp(num<uint32_t>(a[0])).next().slot); }
OP(tp_arith) { auto x = tp(a[0]); microseconds y(num<int64_t>(a[1])); o.num((x + y).elapsed.count()); o.num((x - y).elapsed.count()); o.num((x - time_point(y)).count()); o.flag(x < time_point(y)); o.flag(x == time_point(y)); }
static abieos_context* ctx() { static thread_local abieos_context* c = [] { auto* c = abieos_create(); need(abieos_set_abi(c, 1, "{\"version\":\"eosio::abi/1.1\"}")); return c; }(); return c; }
OP(time_abi) { Exact e(a[1]); auto* j = abieos_bin_to_json(ctx(), 1, a[0].c_str(), e.begin(), e.n); need(j, abieos_get_error(ctx())); std::string t = j; o.str(t);
   need(abieos_json_to_bin(ctx(), 1, a[0].c_str(), t.c_str()), abieos_get_error(ctx())); o.raw(abieos_get_bin_data(ctx()), abieos_get_bin_size(ctx())); }
