// operations on one type of the zoo, by the type's name
#pragma once
#include "types.hpp"
#include <unistd.h>
namespace zoo {
std::map<std::string, std::map<std::string, OpFn>>& table(); // operation -> type -> function
struct Put { Put(const char* op, const char* t, OpFn f) { table()[op][t] = f; } };
template <typename T> T make(const std::string& w, std::deque<std::vector<char>>& keep) {
   T v{}; Rd r(w.data(), w.size()); rd(r, v); need(r.p == r.e, "zoo: long value");
   for (auto& k : r.keep) keep.push_back(std::move(k));
   return v;
}
// streams point into the text they were read from, so that is kept alive
template <typename T> struct Val { std::string text; std::deque<std::vector<char>> keep; T v{}; explicit Val(const std::string& w) : text(w) { Rd r(text.data(), text.size()); rd(r, v); need(r.p == r.e, "zoo: long value"); keep = std::move(r.keep); } };
template <typename T> std::string wire(const T& v) { std::string w; wr(w, v); return w; }

template <typename T> void z_tobin(const Args& a, Out& o) {
   Val<T> x(a[1]); const T& v = x.v;
   using eosio::to_bin;
   o.vec(eosio::convert_to_bin(v));
   eosio::size_stream ss; to_bin(v, ss); o.num(uint32_t(ss.size));
   std::vector<char> w{ 'x', 'y' }; eosio::vector_stream vs(w); to_bin(v, vs); o.vec(w);
   std::vector<char> z{ 'q' }; eosio::convert_to_bin(v, z); o.vec(z);
   // a buffer of exactly the size, and ones that are too short
   size_t n = ss.size;
   { std::unique_ptr<char[]> b(new char[n]); eosio::fixed_buf_stream fs(b.get(), n); to_bin(v, fs); o.flag(fs.pos == fs.end && !memcmp(b.get(), z.data() + 1, n)); }
   std::string shorts;
   for (size_t k : { n - 1, n - 2, n / 2, size_t(0) }) {
      if (k >= n) { shorts += '\1'; continue; }
      std::unique_ptr<char[]> b(new char[k]);
      eosio::fixed_buf_stream fs(b.get(), k);
      try { to_bin(v, fs); shorts += '\0'; } catch (std::exception&) { shorts += fs.pos <= fs.end ? '\1' : '\0'; }
   }
   o.push_back(shorts);
}
template <typename T> void z_frombin(const Args& a, Out& o) {
   Exact x(a[1]); T v{};
   eosio::input_stream s(x.begin(), x.n);
   using eosio::from_bin;
   from_bin(v, s);
   o.push_back(wire(v)); o.num(uint32_t(s.pos - x.begin()));
   std::vector<char> c(a[1].begin(), a[1].end());
   T u{}; eosio::convert_from_bin(u, c); o.flag(wire(u) == o[0]);
}
template <typename T> void z_cut(const Args& a, Out& o) { // every prefix
   std::string f;
   for (size_t n = 0; n <= a[1].size(); ++n) {
      Exact x(a[1].substr(0, n)); eosio::input_stream s(x.begin(), x.n);
      using eosio::from_bin;
      try { T v{}; from_bin(v, s); f += s.pos <= s.end ? '\1' : '\2'; } catch (std::exception&) { f += s.pos <= s.end ? '\0' : '\2'; }
   }
   o.push_back(f);
}
template <typename T> void z_reuse(const Args& a, Out& o) { // decoding into an object that holds another value
   Val<T> x(a[2]); Exact y(a[1]);
   eosio::input_stream s(y.begin(), y.n);
   using eosio::from_bin;
   from_bin(x.v, s); o.push_back(wire(x.v));
}
template <typename T> void z_json(const Args& a, Out& o) {
   Val<T> x(a[1]);
   o.str(eosio::convert_to_json(x.v)); o.str(eosio::format_json(x.v));
   // the two are what their streams measure and fill
   using eosio::to_json;
   eosio::size_stream ss; to_json(x.v, ss); o.flag(ss.size == o[0].size());
   std::vector<char> w; eosio::vector_stream vs(w); to_json(x.v, vs); o.flag(std::string(w.data(), w.size()) == o[0]);
   size_t n = ss.size; bool refused = true;
   for (size_t k : { n - 1, n / 2 }) { std::unique_ptr<char[]> b(new char[k]); eosio::fixed_buf_stream fs(b.get(), k); try { to_json(x.v, fs); refused = false; } catch (std::exception&) {} }
   o.flag(refused);
}
template <typename T> T parse(const std::string& text) {
   CStr c(text); eosio::json_token_stream s(c.get());
   using eosio::from_json;
   T v{}; from_json(v, s); return v;
}
template <typename T> void z_fromjson(const Args& a, Out& o) { 
   CStr c(a[1]); eosio::json_token_stream s(c.get());
   using eosio::from_json;
   T v{}; from_json(v, s); o.push_back(wire(v));
}
template <typename T> void z_jreuse(const Args& a, Out& o) { // reading into an object that holds another value
   Val<T> x(a[2]); CStr c(a[1]); eosio::json_token_stream s(c.get());
   using eosio::from_json;
   from_json(x.v, s); o.push_back(wire(x.v));
}
template <typename T> void z_keys(const Args& a, Out& o) {
   std::vector<std::unique_ptr<Val<T>>> v; bool sizes = true;
   for (size_t i = 1; i < a.size(); ++i) {
      v.push_back(std::make_unique<Val<T>>(a[i]));
      auto k = eosio::convert_to_key(v.back()->v); o.vec(k);
      std::vector<char> w; eosio::vector_stream vs(w); using eosio::to_key; to_key(v.back()->v, vs); sizes &= w == k;
      std::vector<char> z{ 'a' }; eosio::convert_to_key(v.back()->v, z); sizes &= z.size() == k.size() + 1 && z[0] == 'a' && std::equal(k.begin(), k.end(), z.begin() + 1);
   }
   o.flag(sizes);
}
template <typename T> char less(const T& x, const T& y) { try { return x < y ? 1 : 0; } catch (std::exception&) { return 2; } }
template <typename T> void z_cmp(const Args& a, Out& o) { // native order of every pair: bit 0 <, bit 1 >, 4: refused
   std::vector<std::unique_ptr<Val<T>>> v; std::string m;
   for (size_t i = 1; i < a.size(); ++i) v.push_back(std::make_unique<Val<T>>(a[i]));
   for (auto& x : v) for (auto& y : v) { char l = less(x->v, y->v), g = less(y->v, x->v); m += l == 2 || g == 2 ? char(4) : char(l + 2 * g); }
   o.push_back(m);
}
template <typename T> void z_eq(const Args& a, Out& o) {
   std::vector<std::unique_ptr<Val<T>>> v; std::string m;
   for (size_t i = 1; i < a.size(); ++i) v.push_back(std::make_unique<Val<T>>(a[i]));
   for (auto& x : v) for (auto& y : v) m += x->v == y->v ? '\1' : '\0';
   o.push_back(m);
}
template <typename T> struct AbiOf { eosio::abi abi; const eosio::abi_type* t; AbiOf() { eosio::abi_def d; d.version = "eosio::abi/1.1"; eosio::convert(d, abi); t = abi.add_type<T>(); } };
template <typename T> void z_abi(const Args& a, Out& o) {
   AbiOf<T> x; o.str(x.t->name);
   eosio::abi_def d; eosio::convert(x.abi, d);
   o.vec(eosio::convert_to_bin(d));
}
template <typename T> void z_abijson(const Args& a, Out& o) { // value -> C++ binary -> ABI JSON -> ABI binary
   Val<T> x(a[1]); AbiOf<T> y;
   auto b = eosio::convert_to_bin(x.v);
   eosio::input_stream s(b); auto k = y.t->bin_to_json(s); o.str(k); o.flag(s.pos == s.end);
   o.vec(y.t->json_to_bin(k));
}
template <typename T> void z_via(const Args& a, Out& o) { // value -> C++ JSON -> ABI binary ; value -> C++ binary -> ABI JSON -> C++ value
   Val<T> x(a[1]); AbiOf<T> y;
   auto j = eosio::convert_to_json(x.v);
   auto b = eosio::convert_to_bin(x.v);
   o.str(j);
   o.vec(y.t->json_to_bin(j));
   o.vec(y.t->json_to_bin_reorderable(j));
   eosio::input_stream s(b); auto k = y.t->bin_to_json(s); o.str(k); o.flag(s.pos == s.end);
   o.push_back(wire(parse<T>(k)));
}
// an opaque value, opened step by step
template <typename X> struct Opq { static constexpr bool seq = false; using T = X; };
template <typename X> struct Opq<eosio::opaque<X>> : Opq<X> { using T = X; };
template <typename X> struct Opq<std::vector<X>> { static constexpr bool seq = true; using T = std::vector<X>; using E = X; };
template <typename X> struct Opq<eosio::opaque<std::vector<X>>> : Opq<std::vector<X>> {};
template <typename O> void z_opq(const Args& a, Out& o) {
   using T = typename Opq<O>::T;
   std::vector<char> d(a[2].begin(), a[2].end()); Exact x(a[2]);
   O q;
   if (a[1] == "v") q = O(d);
   else if (a[1] == "s") q = O(eosio::input_stream(x.begin(), x.n));
   else { using eosio::from_bin; eosio::input_stream s(x.begin(), x.n); from_bin(q, s); o.num(uint32_t(s.pos - x.begin())); }
   for (char k : a[3]) {
      std::string got;
      try {
         if (k == 'e') got += char(q.empty());
         else if (k == 'u') got = wire(q.unpack());
         else if (k == 'U') { T t{}; q.unpack(t); got = wire(t); }
         else if (k == 't') { std::vector<char> w; eosio::vector_stream s(w); using eosio::to_bin; to_bin(q, s); got.assign(w.data(), w.size()); }
         else if constexpr (Opq<O>::seq) {
            if (k == 'n') { uint64_t n = q.unpack_size(); got.assign((char*)&n, 8); }
            else if (k == 'x') got = wire(q.unpack_next());
            else { typename Opq<O>::E e{}; q.unpack_next(e); got = wire(e); }
         }
      } catch (std::exception&) { o.str(std::string(1, '\0')); return; }
      o.str('\1' + got);
   }
}
}
