#include "drv.hpp"
#include <eosio/fixed_bytes.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_json.hpp>
#include <eosio/float.hpp>
using namespace eosio;
template <std::size_t N, typename W> struct fb { static constexpr size_t size = N; using word = W; using type = fixed_bytes<N, W>; };
template <typename F> void pick(const Args& a, F f) {
   int n = (unsigned char)a[0][0], w = a[1][0];
#define C(N, W) if (n == N && w == sizeof(W)) return f(fb<N, W>());
#define D(N) C(N, uint64_t) C(N, uint32_t) C(N, uint16_t) C(N, uint8_t)
   D(1) D(2) D(3) D(5) D(7) D(8) D(9) D(12) D(16) D(20) D(23) D(31) D(32) D(33) D(64)
#undef D
#undef C
   abort();
}
template <typename A> void words(const A& x, Out& o) { o.raw(x.data(), x.size() * sizeof(x[0])); }
template <typename T> void show(const T& v, Out& o) {
   words(v.extract_as_byte_array(), o); words(v.template extract_as_word_array<uint8_t>(), o); words(v.template extract_as_word_array<uint16_t>(), o);
   words(v.template extract_as_word_array<uint32_t>(), o); words(v.template extract_as_word_array<uint64_t>(), o);
   words(v.get_array(), o);
   auto b = convert_to_bin(v); o.vec(b);
   auto j = convert_to_json(v); o.str(j);
   T x; input_stream in(b.data(), b.size()); from_bin(x, in); need(in.remaining() == 0); o.flag(x == v);
   T y; CStr c(j); json_token_stream s(c.get()); from_json(y, s); s.get_end(); o.flag(y == v);
}
template <typename T, typename E, size_t N> T from_arr(const std::string& b, bool carray) {
   std::array<E, N> r{}; memcpy(r.data(), b.data(), N * sizeof(E));
   if constexpr (N > 0) if (carray) { E c[N]; memcpy(c, b.data(), N * sizeof(E)); return T(c); }
   return T(r);
}
// as many elements as are given, up to the full count
template <typename T, typename E, size_t Max> bool shorter(const std::string& b, bool ca, T& v) {
   size_t n = b.size() / sizeof(E); bool hit = false;
   auto one = [&](auto k) { constexpr size_t K = decltype(k)::value; if (!hit && n == K) { v = from_arr<T, E, K>(b, ca); hit = true; } };
   one(std::integral_constant<size_t, Max>()); one(std::integral_constant<size_t, Max - 1>()); one(std::integral_constant<size_t, Max / 2>()); one(std::integral_constant<size_t, 0>());
   return hit;
}
OP(fb_make) { pick(a, [&](auto f) { using F = decltype(f); using T = typename F::type; constexpr size_t N = F::size; T v; int w = a[2][0]; bool ca = a[3][0];
   bool hit = w == 1 ? shorter<T, uint8_t, N>(a[4], ca, v) : w == 2 ? shorter<T, uint16_t, (N + 1) / 2>(a[4], ca, v) : w == 4 ? shorter<T, uint32_t, (N + 3) / 4>(a[4], ca, v) : shorter<T, uint64_t, (N + 7) / 8>(a[4], ca, v);
   if (!hit) abort(); show(v, o); }); }
template <typename T, typename E, size_t... I> T seq(const std::string& b, std::index_sequence<I...>) { E e[sizeof...(I)]; memcpy(e, b.data(), sizeof(e)); return T::template make_from_word_sequence<E>(e[I]...); }
OP(fb_seq) { pick(a, [&](auto f) { using F = decltype(f); using T = typename F::type; constexpr size_t N = F::size; T v; int w = a[2][0];
   if constexpr (N > 1) { v = w == 1 ? seq<T, uint8_t>(a[3], std::make_index_sequence<N>()) : w == 2 ? seq<T, uint16_t>(a[3], std::make_index_sequence<(N + 1) / 2>()) : w == 4 ? seq<T, uint32_t>(a[3], std::make_index_sequence<(N + 3) / 4>()) : seq<T, uint64_t>(a[3], std::make_index_sequence<(N + 7) / 8>()); }
   show(v, o); }); }
OP(fb_list) { fixed_bytes<5> x{ 0 }; auto u = [&](int i) { return uint8_t(a[0][i]); };
   switch (a[0].size()) { case 1: x = fixed_bytes<5>({ u(0) }); break; case 3: x = fixed_bytes<5>({ u(0), u(1), u(2) }); break; case 5: x = fixed_bytes<5>({ u(0), u(1), u(2), u(3), u(4) }); break;
      case 7: x = fixed_bytes<5>({ u(0), u(1), u(2), u(3), u(4), u(5), u(6) }); break; default: abort(); } show(x, o); }
OP(fb_json) { pick(a, [&](auto f) { typename decltype(f)::type v; CStr c(a[2]); json_token_stream s(c.get()); from_json(v, s); s.get_end(); words(v.extract_as_byte_array(), o); }); }
OP(fb_bin) { pick(a, [&](auto f) { typename decltype(f)::type v; Exact e(a[2]); input_stream in(e.begin(), e.n); from_bin(v, in); words(v.extract_as_byte_array(), o); o.num(uint32_t(in.remaining())); }); }
template <typename T> void rel(const T& x, const T& y, Out& o) { o.flag(x == y); o.flag(x != y); o.flag(x < y); o.flag(x > y); o.flag(x <= y); o.flag(x >= y); }
OP(fb_cmp) { pick(a, [&](auto f) { using F = decltype(f); using T = typename F::type; T x = from_arr<T, uint8_t, F::size>(a[2], false), y = from_arr<T, uint8_t, F::size>(a[3], false); rel(x, y, o); }); }
struct cmp_in { uint8_t x; int64_t y; };
EOSIO_REFLECT(cmp_in, x, y)
EOSIO_COMPARE(cmp_in);
struct cmp_s { int16_t a; std::string b; cmp_in c; checksum160 d; std::vector<int8_t> e; };
EOSIO_REFLECT(cmp_s, a, b, c, d, e)
EOSIO_COMPARE(cmp_s);
struct cmp_d : cmp_in { bool z; };
EOSIO_REFLECT(cmp_d, base cmp_in, z)
EOSIO_COMPARE(cmp_d);
static cmp_s mk(const Args& a, int k) { cmp_s s; s.a = num<int16_t>(a[k]); s.b = a[k + 1]; s.c.x = num<uint8_t>(a[k + 2]); s.c.y = num<int64_t>(a[k + 3]); s.d = from_arr<checksum160, uint8_t, 20>(a[k + 4], false); for (char ch : a[k + 5]) s.e.push_back(ch); return s; }
OP(st_cmp) { rel(mk(a, 0), mk(a, 6), o); }
OP(sd_cmp) { auto m = [&](int k) { cmp_d d; d.x = num<uint8_t>(a[k]); d.y = num<int64_t>(a[k + 1]); d.z = a[k + 2][0]; return d; }; rel(m(0), m(3), o); }
struct cmp_f { float x; cmp_in c; double y; };
EOSIO_REFLECT(cmp_f, x, c, y)
EOSIO_COMPARE(cmp_f);
OP(sf_cmp) { auto m = [&](int k) { cmp_f d; d.x = num<float>(a[k]); d.c.x = num<uint8_t>(a[k + 1]); d.c.y = 5; d.y = num<double>(a[k + 2]); return d; }; cmp_f u = m(0), v = m(3); rel(u, v, o); rel(u, u, o); }
