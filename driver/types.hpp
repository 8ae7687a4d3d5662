// A zoo of C++ types. Values travel as canonical binaries, which are read and written here
// without the codecs of the library (rd, wr).
#pragma once
#include "drv.hpp"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <optional>
#include <tuple>
#include <variant>
#include <eosio/to_bin.hpp>
#include <eosio/abi.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/opaque.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
#include <eosio/varint.hpp>
namespace zoo {
using int128 = __int128; using uint128 = unsigned __int128;
struct Rd {
   const char *p, *e;
   std::deque<std::vector<char>> keep;   // what streams point into
   Rd(const char* b, size_t n) : p(b), e(b + n) {}
   const char* take(size_t n) { need(size_t(e - p) >= n, "zoo: short value"); auto q = p; p += n; return q; }
   uint8_t u8() { return uint8_t(*take(1)); }
   uint64_t var() { uint64_t v = 0; for (int s = 0;; s += 7) { uint8_t b = u8(); v |= uint64_t(b & 127) << s; if (!(b & 128)) return v; } }
};
inline void wvar(std::string& w, uint64_t v) { while (v > 127) { w += char(v & 127 | 128); v >>= 7; } w += char(v); }
template <typename T> struct Mem;   // members of a struct, in wire order
template <typename T, typename = void> struct W { // structs
   static void rd(Rd& r, T& v) { Mem<T>::each(v, [&](auto& m) { W<std::decay_t<decltype(m)>>::rd(r, m); }); }
   static void wr(std::string& w, const T& v) { Mem<T>::each(v, [&](auto& m) { W<std::decay_t<decltype(m)>>::wr(w, m); }); }
};
template <typename T> void rd(Rd& r, T& v) { W<T>::rd(r, v); }
template <typename T> void wr(std::string& w, const T& v) { W<T>::wr(w, v); }
template <typename T> struct W<T, std::enable_if_t<(std::is_arithmetic_v<T> || std::is_enum_v<T>) && !std::is_same_v<T, bool>>> {
   static void rd(Rd& r, T& v) { memcpy(&v, r.take(sizeof(T)), sizeof(T)); }
   static void wr(std::string& w, const T& v) { w.append((const char*)&v, sizeof(T)); }
};
template <> struct W<bool> { static void rd(Rd& r, bool& v) { v = r.u8() != 0; } static void wr(std::string& w, const bool& v) { uint8_t b; memcpy(&b, &v, 1); w += char(b); } };
template <> struct W<std::string> { static void rd(Rd& r, std::string& v) { size_t n = r.var(); v.assign(r.take(n), n); } static void wr(std::string& w, const std::string& v) { wvar(w, v.size()); w += v; } };
template <> struct W<eosio::input_stream> { static void rd(Rd& r, eosio::input_stream& v) { size_t n = r.var(); auto p = r.take(n); v = { p, n }; } static void wr(std::string& w, const eosio::input_stream& v) { wvar(w, v.end - v.pos); w.append(v.pos, v.end - v.pos); } };
template <> struct W<eosio::bytes> { static void rd(Rd& r, eosio::bytes& v) { size_t n = r.var(); auto p = r.take(n); v.data.assign(p, p + n); } static void wr(std::string& w, const eosio::bytes& v) { wvar(w, v.data.size()); w.append(v.data.data(), v.data.size()); } };
template <> struct W<eosio::name> { static void rd(Rd& r, eosio::name& v) { uint64_t x; zoo::rd(r, x); v = eosio::name(x); } static void wr(std::string& w, const eosio::name& v) { zoo::wr(w, uint64_t(v.value)); } };
template <> struct W<eosio::symbol_code> { static void rd(Rd& r, eosio::symbol_code& v) { uint64_t x; zoo::rd(r, x); v = eosio::symbol_code(x); } static void wr(std::string& w, const eosio::symbol_code& v) { zoo::wr(w, uint64_t(v.raw())); } };
template <> struct W<eosio::symbol> { static void rd(Rd& r, eosio::symbol& v) { uint64_t x; zoo::rd(r, x); v = eosio::symbol(x); } static void wr(std::string& w, const eosio::symbol& v) { zoo::wr(w, uint64_t(v.raw())); } };
template <> struct W<eosio::asset> { static void rd(Rd& r, eosio::asset& v) { zoo::rd(r, v.amount); zoo::rd(r, v.symbol); } static void wr(std::string& w, const eosio::asset& v) { zoo::wr(w, v.amount); zoo::wr(w, v.symbol); } };
template <> struct W<eosio::time_point> { static void rd(Rd& r, eosio::time_point& v) { int64_t x; zoo::rd(r, x); v = eosio::time_point(eosio::microseconds(x)); } static void wr(std::string& w, const eosio::time_point& v) { zoo::wr(w, int64_t(v.elapsed.count())); } };
template <> struct W<eosio::time_point_sec> { static void rd(Rd& r, eosio::time_point_sec& v) { zoo::rd(r, v.utc_seconds); } static void wr(std::string& w, const eosio::time_point_sec& v) { zoo::wr(w, v.utc_seconds); } };
template <> struct W<eosio::block_timestamp> { static void rd(Rd& r, eosio::block_timestamp& v) { zoo::rd(r, v.slot); } static void wr(std::string& w, const eosio::block_timestamp& v) { zoo::wr(w, v.slot); } };
template <> struct W<eosio::varuint32> { static void rd(Rd& r, eosio::varuint32& v) { v.value = uint32_t(r.var()); } static void wr(std::string& w, const eosio::varuint32& v) { wvar(w, v.value); } };
template <> struct W<eosio::varint32> { static void rd(Rd& r, eosio::varint32& v) { uint32_t x = uint32_t(r.var()); v.value = int32_t(x >> 1) ^ -int32_t(x & 1); } static void wr(std::string& w, const eosio::varint32& v) { wvar(w, (uint32_t(v.value) << 1) ^ (v.value < 0 ? 0xffffffffu : 0)); } };
template <size_t N, typename T> struct W<eosio::fixed_bytes<N, T>> {
   static void rd(Rd& r, eosio::fixed_bytes<N, T>& v) { std::array<uint8_t, N> x; memcpy(x.data(), r.take(N), N); v = eosio::fixed_bytes<N, T>(x); }
   static void wr(std::string& w, const eosio::fixed_bytes<N, T>& v) { auto x = v.extract_as_byte_array(); w.append((const char*)x.data(), N); }
};
template <typename C> struct Seq {
   static void rd(Rd& r, C& v) { v.clear(); for (size_t n = r.var(); n; --n) { v.emplace_back(); zoo::rd(r, v.back()); } }
   static void wr(std::string& w, const C& v) { wvar(w, v.size()); for (auto& x : v) zoo::wr(w, x); }
};
template <typename T> struct W<std::vector<T>> : Seq<std::vector<T>> {};
template <typename T> struct W<std::list<T>> : Seq<std::list<T>> {};
template <typename T> struct W<std::deque<T>> : Seq<std::deque<T>> {};
template <typename T> struct W<std::set<T>> {
   static void rd(Rd& r, std::set<T>& v) { v.clear(); for (size_t n = r.var(); n; --n) { T x; zoo::rd(r, x); v.insert(v.end(), x); } }
   static void wr(std::string& w, const std::set<T>& v) { wvar(w, v.size()); for (auto& x : v) zoo::wr(w, x); }
};
template <typename K, typename T> struct W<std::map<K, T>> {
   static void rd(Rd& r, std::map<K, T>& v) { v.clear(); for (size_t n = r.var(); n; --n) { std::pair<K, T> x; zoo::rd(r, x.first); zoo::rd(r, x.second); v.insert(v.end(), x); } }
   static void wr(std::string& w, const std::map<K, T>& v) { wvar(w, v.size()); for (auto& x : v) { zoo::wr(w, x.first); zoo::wr(w, x.second); } }
};
template <typename K, typename T> struct W<std::pair<K, T>> {
   static void rd(Rd& r, std::pair<K, T>& v) { zoo::rd(r, v.first); zoo::rd(r, v.second); }
   static void wr(std::string& w, const std::pair<K, T>& v) { zoo::wr(w, v.first); zoo::wr(w, v.second); }
};
template <typename... T> struct W<std::tuple<T...>> {
   static void rd(Rd& r, std::tuple<T...>& v) { std::apply([&](auto&... x) { (zoo::rd(r, x), ...); }, v); }
   static void wr(std::string& w, const std::tuple<T...>& v) { std::apply([&](auto&... x) { (zoo::wr(w, x), ...); }, v); }
};
template <typename T, size_t N> struct W<std::array<T, N>> {
   static void rd(Rd& r, std::array<T, N>& v) { for (auto& x : v) zoo::rd(r, x); }
   static void wr(std::string& w, const std::array<T, N>& v) { for (auto& x : v) zoo::wr(w, x); }
};
template <typename T> struct W<std::optional<T>> {
   static void rd(Rd& r, std::optional<T>& v) { if (r.u8()) { v.emplace(); zoo::rd(r, *v); } else v.reset(); }
   static void wr(std::string& w, const std::optional<T>& v) { w += char(v.has_value()); if (v) zoo::wr(w, *v); }
};
template <typename... T> struct W<std::variant<T...>> {
   template <size_t I> static void at(Rd& r, std::variant<T...>& v, size_t i) {
      if constexpr (I < sizeof...(T)) { if (i == I) zoo::rd(r, v.template emplace<I>()); else at<I + 1>(r, v, i); } else need(false, "zoo: index");
   }
   static void rd(Rd& r, std::variant<T...>& v) { at<0>(r, v, r.var()); }
   static void wr(std::string& w, const std::variant<T...>& v) { wvar(w, v.index()); std::visit([&](auto& x) { zoo::wr(w, x); }, v); }
};
template <typename T> struct W<eosio::might_not_exist<T>> {
   static void rd(Rd& r, eosio::might_not_exist<T>& v) { if (r.p != r.e) zoo::rd(r, v.value); else v.value = T{}; }
   static void wr(std::string& w, const eosio::might_not_exist<T>& v) { zoo::wr(w, v.value); }
};
template <typename T> struct W<eosio::opaque<T>> { // only what is public
   static void rd(Rd& r, eosio::opaque<T>& v) { size_t n = r.var(); auto p = r.take(n); r.keep.emplace_back(p, p + n); v = eosio::opaque<T>(r.keep.back()); }
   static void wr(std::string& w, const eosio::opaque<T>& v) { std::vector<char> x; eosio::vector_stream s(x); using eosio::to_bin; to_bin(v, s); w.append(x.data(), x.size()); }
};
#define MEMBERS(S, ...) template <> struct Mem<S> { template <typename V, typename F> static void each(V& v, F f) { __VA_ARGS__ } }
#define M(x) f(v.x);
#define BASE(B) Mem<B>::each(v, f);
MEMBERS(eosio::webauthn_public_key, M(key) M(user_presence) M(rpid));
MEMBERS(eosio::webauthn_signature, M(compact_signature) M(auth_data) M(client_json));
}
// ---------------------------------------------------------------- structs
namespace zoo {
enum class e_s8 : int8_t { a = -1, b = 0, c = 1 };
enum class e_u8 : uint8_t { a, b };
enum class e_s16 : int16_t { a = -1, b = 0 };
enum class e_u64 : uint64_t { a };
struct empty {};
EOSIO_REFLECT(empty) EOSIO_COMPARE(empty);
struct point { int8_t x = 0; int8_t y = 0; };
EOSIO_REFLECT(point, x, y) EOSIO_COMPARE(point);
struct base { uint64_t id = 0; eosio::name who; };
EOSIO_REFLECT(base, id, who) EOSIO_COMPARE(base);
struct derived : base { std::string note; std::optional<uint16_t> num; };
EOSIO_REFLECT(derived, base base, note, num) EOSIO_COMPARE(derived);
struct twice : derived { std::vector<int32_t> v; point p; };
EOSIO_REFLECT(twice, base derived, v, p) EOSIO_COMPARE(twice);
// members reflected in another order than they are declared
struct mixed { std::string last; uint8_t first = 0; std::variant<uint8_t, std::string, double> mid; };
EOSIO_REFLECT(mixed, first, mid, last) EOSIO_COMPARE(mixed);
struct keyed { std::string s; int8_t n = 0; std::vector<uint8_t> v; std::optional<std::string> o; };
EOSIO_REFLECT(keyed, s, n, v, o) EOSIO_COMPARE(keyed);
struct scalars {
   bool b = false; int8_t i8 = 0; uint8_t u8 = 0; int16_t i16 = 0; uint16_t u16 = 0; int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; uint64_t u64 = 0; int128 i128 = 0; uint128 u128 = 0;
   eosio::varuint32 vu; eosio::varint32 vi; float f = 0; double d = 0; eosio::float128 ld; eosio::time_point tp; eosio::time_point_sec ts; eosio::block_timestamp bt; eosio::name nm; eosio::bytes by; std::string st;
   eosio::checksum160 c1; eosio::checksum256 c2; eosio::checksum512 c5; eosio::public_key pk; eosio::private_key sk; eosio::signature sg; eosio::symbol sy; eosio::symbol_code sc; eosio::asset as;
};
EOSIO_REFLECT(scalars, b, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, vu, vi, f, d, ld, tp, ts, bt, nm, by, st, c1, c2, c5, pk, sk, sg, sy, sc, as)
struct holder { std::vector<std::string> names; std::vector<double> nums; std::optional<eosio::asset> price; std::variant<int8_t, std::string, eosio::name> v; point at; derived d; std::optional<eosio::bytes> raw; std::vector<eosio::public_key> keys; };
EOSIO_REFLECT(holder, names, nums, price, v, at, d, raw, keys)
struct extended { int8_t a = 0; eosio::might_not_exist<std::string> b; eosio::might_not_exist<std::vector<uint16_t>> c; };
EOSIO_REFLECT(extended, a, b, c)
// reflected by hand, so that vectors, optionals and variants of it have a name
} namespace eosio { // (names of containers of containers are found in the namespace of what is inside)
struct node { int16_t v = 0; std::string s; };
constexpr const char* get_type_name(node*) { return "node"; }
template <typename F> constexpr void eosio_for_each_field(node*, F f) { EOSIO_REFLECT_INTERNAL(node, v) EOSIO_REFLECT_INTERNAL(node, s) }
EOSIO_COMPARE(node);
} namespace zoo {
using eosio::node;
struct tree { int8_t v = 0; std::vector<tree> kids; std::optional<node> tip; };
constexpr const char* get_type_name(tree*) { return "tree"; }
template <typename F> constexpr void eosio_for_each_field(tree*, F f) { EOSIO_REFLECT_INTERNAL(tree, v) EOSIO_REFLECT_INTERNAL(tree, kids) EOSIO_REFLECT_INTERNAL(tree, tip) }
EOSIO_COMPARE(tree);
struct graph { std::vector<node> nodes; std::optional<node> root; std::variant<node, std::string> pick; std::vector<std::variant<int8_t, node>> steps; };
EOSIO_REFLECT(graph, nodes, root, pick, steps)
struct rich { eosio::name nm; eosio::asset am; eosio::symbol sy; eosio::symbol_code sc; eosio::time_point tp; eosio::time_point_sec ts; eosio::block_timestamp bt; eosio::varuint32 vu; eosio::varint32 vi; int128 i128 = 0; uint128 u128 = 0; float f = 0; double d = 0; bool b = false;
   std::vector<std::string> strs; std::vector<uint64_t> nums; std::optional<double> o; std::variant<int8_t, std::string, std::vector<int8_t>> v; node kid; std::vector<node> kids; derived at; tree t; eosio::extended_asset ea; eosio::might_not_exist<std::vector<node>> last; };
EOSIO_REFLECT(rich, nm, am, sy, sc, tp, ts, bt, vu, vi, i128, u128, f, d, b, strs, nums, o, v, kid, kids, at, t, ea, last)
struct quoting { std::string plain; std::vector<std::string> many; std::optional<std::string> opt; std::variant<std::string, bool> var; };
EOSIO_REFLECT(quoting, plain, many, opt, var)
struct arrays { int8_t bytes[3] = {}; std::string texts[2]; uint32_t nums[3] = {}; double tall[2] = {}; point pts[2]; std::array<uint16_t, 2> ext = {}; };
EOSIO_REFLECT(arrays, bytes, texts, nums, tall, pts, ext)
// the first member may be empty
struct ofirst { std::optional<int8_t> a; std::optional<std::string> b; uint8_t c = 0; };
EOSIO_REFLECT(ofirst, a, b, c)
struct oonly { std::optional<uint16_t> o; };
EOSIO_REFLECT(oonly, o)
struct vfirst : ofirst { std::vector<ofirst> v; std::variant<oonly, std::string> w; };
EOSIO_REFLECT(vfirst, base ofirst, v, w)
struct wfirst { std::variant<int8_t, std::string> w; uint8_t k = 0; };
EOSIO_REFLECT(wfirst, w, k) EOSIO_COMPARE(wfirst);
struct tailed { bool k = false; eosio::might_not_exist<std::string> a; };
EOSIO_REFLECT(tailed, k, a)
struct sub { std::optional<bool> o; };
EOSIO_REFLECT(sub, o)
struct tails : sub { eosio::might_not_exist<uint8_t> b; eosio::might_not_exist<std::vector<int8_t>> c; };
EOSIO_REFLECT(tails, base sub, b, c)
struct onlyvec { std::vector<oonly> v; };
EOSIO_REFLECT(onlyvec, v)
struct lazy { uint8_t k = 0; eosio::opaque<std::vector<std::string>> strs; eosio::opaque<derived> one; uint16_t z = 0; };
EOSIO_REFLECT(lazy, k, strs, one, z)
MEMBERS(empty, );
MEMBERS(point, M(x) M(y));
MEMBERS(base, M(id) M(who));
MEMBERS(derived, BASE(base) M(note) M(num));
MEMBERS(twice, BASE(derived) M(v) M(p));
MEMBERS(mixed, M(first) M(mid) M(last));
MEMBERS(keyed, M(s) M(n) M(v) M(o));
MEMBERS(scalars, M(b) M(i8) M(u8) M(i16) M(u16) M(i32) M(u32) M(i64) M(u64) M(i128) M(u128) M(vu) M(vi) M(f) M(d) M(ld) M(tp) M(ts) M(bt) M(nm) M(by) M(st) M(c1) M(c2) M(c5) M(pk) M(sk) M(sg) M(sy) M(sc) M(as));
MEMBERS(holder, M(names) M(nums) M(price) M(v) M(at) M(d) M(raw) M(keys));
MEMBERS(extended, M(a) M(b) M(c));
MEMBERS(node, M(v) M(s));
MEMBERS(rich, M(nm) M(am) M(sy) M(sc) M(tp) M(ts) M(bt) M(vu) M(vi) M(i128) M(u128) M(f) M(d) M(b) M(strs) M(nums) M(o) M(v) M(kid) M(kids) M(at) M(t) M(ea) M(last));
MEMBERS(tree, M(v) M(kids) M(tip));
MEMBERS(graph, M(nodes) M(root) M(pick) M(steps));
MEMBERS(quoting, M(plain) M(many) M(opt) M(var));
template <> struct Mem<arrays> { template <typename V, typename F> static void each(V& v, F f) { for (auto& x : v.bytes) f(x); for (auto& x : v.texts) f(x); for (auto& x : v.nums) f(x); for (auto& x : v.tall) f(x); for (auto& x : v.pts) f(x); f(v.ext); } };
template <> struct W<arrays> { // counted arrays
   template <typename T, size_t N> static void rds(Rd& r, T (&v)[N]) { need(r.var() == N); for (auto& x : v) zoo::rd(r, x); }
   template <typename T, size_t N> static void wrs(std::string& w, const T (&v)[N]) { wvar(w, N); for (auto& x : v) zoo::wr(w, x); }
   static void rd(Rd& r, arrays& v) { rds(r, v.bytes); rds(r, v.texts); rds(r, v.nums); rds(r, v.tall); rds(r, v.pts); zoo::rd(r, v.ext); }
   static void wr(std::string& w, const arrays& v) { wrs(w, v.bytes); wrs(w, v.texts); wrs(w, v.nums); wrs(w, v.tall); wrs(w, v.pts); zoo::wr(w, v.ext); }
};
MEMBERS(ofirst, M(a) M(b) M(c));
MEMBERS(oonly, M(o));
MEMBERS(vfirst, BASE(ofirst) M(v) M(w));
MEMBERS(wfirst, M(w) M(k));
MEMBERS(tailed, M(k) M(a));
MEMBERS(sub, M(o));
MEMBERS(tails, BASE(sub) M(b) M(c));
MEMBERS(onlyvec, M(v));
MEMBERS(lazy, M(k) M(strs) M(one) M(z));
}
