// conversions between related types, and types that are read as another one
#include "zoo.hpp"
#include <eosio/convert.hpp>
namespace zoo {
std::map<std::string, std::map<std::string, OpFn>>& table() { static std::map<std::string, std::map<std::string, OpFn>> t; return t; }
struct A1 { uint32_t x = 0; std::string y; };
EOSIO_REFLECT(A1, x, y)
struct A2 { std::string y; uint32_t x = 0; };
EOSIO_REFLECT(A2, y, x)
struct A3 { uint32_t x = 0; };
EOSIO_REFLECT(A3, x)
struct A4 : A1 { int8_t z = 0; std::vector<uint16_t> w; };
EOSIO_REFLECT(A4, base A1, z, w)
struct In { eosio::varuint32 n = 0; eosio::input_stream d; };
EOSIO_REFLECT(In, n, d)
struct Ot { std::vector<char> d; uint32_t n = 0; };
EOSIO_REFLECT(Ot, d, n)
struct N1 { A1 a; std::vector<A1> v; std::optional<A1> o; std::vector<eosio::varuint32> t; std::optional<eosio::varuint32> u; In in; };
EOSIO_REFLECT(N1, a, v, o, t, u, in)
struct N2 { std::vector<uint32_t> t; std::optional<A4> o; std::vector<A4> v; A4 a; std::optional<uint32_t> u; Ot in; std::string extra; };
EOSIO_REFLECT(N2, t, o, v, a, u, in, extra)
struct N3 { std::optional<A3> o; std::vector<A3> v; A2 a; };
EOSIO_REFLECT(N3, o, v, a)
struct P1 { std::variant<A1, A4> p; uint8_t k = 0; };
EOSIO_REFLECT(P1, p, k)
struct P2 { uint8_t k = 0; A3 p; };
EOSIO_REFLECT(P2, k, p)
struct LW { eosio::varuint32 n = 0; eosio::input_stream d; std::optional<A1> o; std::vector<eosio::varuint32> t; };
EOSIO_REFLECT(LW, n, d, o, t)
struct L { std::vector<char> d; uint32_t n = 0; std::vector<uint32_t> t; std::optional<A4> o; };
EOSIO_REFLECT(L, d, n, t, o)
LW serialize_as(const L&);
struct LL { L one; std::vector<L> many; std::optional<L> may; uint8_t k = 0; };
EOSIO_REFLECT(LL, one, many, may, k)
#define KIND(k, S, D) eosio::k##_conversion conversion_kind(S, D);
KIND(strict, A1, A2) KIND(narrowing, A1, A3) KIND(widening, A1, A4) KIND(narrowing, A2, A3) KIND(widening, A2, A4) KIND(narrowing, A4, A2) KIND(narrowing, A4, A3)
KIND(strict, In, Ot) KIND(widening, N1, N2) KIND(narrowing, N1, N3) KIND(narrowing, N2, N3) KIND(strict, P1, P2) KIND(strict, LW, L)
#define F(x) f(v.x);
MEMBERS(A1, F(x) F(y)); MEMBERS(A2, F(y) F(x)); MEMBERS(A3, F(x)); MEMBERS(A4, BASE(A1) F(z) F(w)); MEMBERS(In, F(n) F(d)); MEMBERS(Ot, F(d) F(n));
MEMBERS(N1, F(a) F(v) F(o) F(t) F(u) F(in)); MEMBERS(N2, F(t) F(o) F(v) F(a) F(u) F(in) F(extra)); MEMBERS(N3, F(o) F(v) F(a));
MEMBERS(P1, F(p) F(k)); MEMBERS(P2, F(k) F(p)); MEMBERS(L, F(d) F(n) F(t) F(o)); MEMBERS(LL, F(one) F(many) F(may) F(k));
#undef F
template <bool first, typename S, typename D> void cv(const Args& a, Out& o) { // source, what the destination holds ("": nothing yet)
   Val<S> s(a[3]);
   D d{};
   Rd r(a[4].data(), a[4].size());
   if (!a[4].empty()) { rd(r, d); need(r.p == r.e, "zoo: long value"); }
   using eosio::convert;
   if constexpr (first) convert(s.v, d, eosio::choose_first); else convert(s.v, d, eosio::choose_second);
   o.push_back(wire(d)); o.push_back(wire(s.v));
}
template <typename S, typename D> void cv1(const Args& a, Out& o) { cv<true, S, D>(a, o); }
template <typename S, typename D> void cv2(const Args& a, Out& o) { cv<false, S, D>(a, o); }
template <typename... T> using var = std::variant<T...>;
template <typename T> using vec = std::vector<T>;
template <typename T> using opt = std::optional<T>;
template <typename T> std::string nm() {
   if constexpr (std::is_same_v<T, A1>) return "cv_a1"; else if constexpr (std::is_same_v<T, A2>) return "cv_a2"; else if constexpr (std::is_same_v<T, A3>) return "cv_a3"; else if constexpr (std::is_same_v<T, A4>) return "cv_a4";
   else if constexpr (std::is_same_v<T, In>) return "cv_in"; else if constexpr (std::is_same_v<T, Ot>) return "cv_ot"; else if constexpr (std::is_same_v<T, N1>) return "cv_n1"; else if constexpr (std::is_same_v<T, N2>) return "cv_n2";
   else if constexpr (std::is_same_v<T, N3>) return "cv_n3"; else if constexpr (std::is_same_v<T, P1>) return "cv_p1"; else if constexpr (std::is_same_v<T, P2>) return "cv_p2"; else if constexpr (std::is_same_v<T, eosio::varuint32>) return "varuint32";
   else if constexpr (std::is_same_v<T, uint32_t>) return "uint32"; else if constexpr (std::is_same_v<T, eosio::input_stream>) return "stream"; else return "chr";
}
template <typename T> struct Nm { static std::string get() { return nm<T>(); } };
template <typename T> struct Nm<vec<T>> { static std::string get() { return "vec<" + Nm<T>::get() + ">"; } };
template <typename T> struct Nm<opt<T>> { static std::string get() { return "opt<" + Nm<T>::get() + ">"; } };
template <typename... T> struct Nm<var<T...>> { static std::string get() { std::string r; ((r += (r.empty() ? "var<" : ",") + Nm<T>::get()), ...); return r + ">"; } };
// which members exist on the side that is asked is checked by the compiler: not every direction can be written
template <typename S, typename D> struct Both { Both() { auto k = Nm<S>::get() + ">" + Nm<D>::get(); table()["1"][k] = cv1<S, D>; table()["2"][k] = cv2<S, D>; } };
template <typename S, typename D> struct One { One() { auto k = Nm<S>::get() + ">" + Nm<D>::get(); table()["1"][k] = cv1<S, D>; } };
template <typename S, typename D> struct Two { Two() { auto k = Nm<S>::get() + ">" + Nm<D>::get(); table()["2"][k] = cv2<S, D>; } };
// widening: every member of the source has a place, so asking the source's members; narrowing: asking the destination's
static Both<A1, A1> b0; static Both<A1, A2> b1; static Both<A2, A1> b2; static Both<vec<A1>, vec<A1>> b3; static Both<opt<A2>, opt<A1>> b4; static Both<In, Ot> b5; static Both<N1, N1> b6; static Both<vec<vec<A2>>, vec<vec<A1>>> b7;
static One<A3, A1> w1; static One<A1, A4> w2; static One<A3, A4> w3; static One<A3, A2> w4; static One<A2, A4> w5; static One<vec<A1>, vec<A4>> w6; static One<opt<A3>, opt<A4>> w7; static One<N1, N2> w8; static One<N3, N1> w9;
static One<vec<opt<A1>>, vec<opt<A4>>> w10; static One<opt<vec<A3>>, opt<vec<A1>>> w11; static One<var<A1, A2, A3>, A4> w12; static One<vec<var<A3, A1>>, vec<A4>> w13; static One<var<var<A3, A1>, A2>, A4> w14;
static Both<A1, A3> n1; static Both<A4, A1> n2; static Both<A4, A3> n3; static Both<A2, A3> n4; static Both<A4, A2> n5; static Both<vec<A4>, vec<A1>> n6; static Both<opt<A4>, opt<A3>> n7; static Both<N1, N3> n8; static Both<N2, N3> n9;
static Both<vec<opt<A4>>, vec<opt<A2>>> n10; static Both<opt<vec<A1>>, opt<vec<A3>>> n11; static Both<var<A1, A2, A4>, A3> n12; static Both<P1, P2> n13; static Both<opt<var<A4, A1>>, opt<A3>> n14; 
static Both<eosio::varuint32, uint32_t> s1; static Both<vec<eosio::varuint32>, vec<uint32_t>> s2; static Both<opt<eosio::varuint32>, opt<uint32_t>> s3; static Both<eosio::input_stream, vec<char>> s4; static Both<vec<eosio::input_stream>, vec<vec<char>>> s5;
template <typename T> struct As { As(const char* n) { table()["from"][n] = z_frombin<T>; table()["cut"][n] = z_cut<T>; table()["reuse"][n] = z_reuse<T>; } };
static As<L> a1("cv_l"); static As<LL> a2("cv_ll"); static As<vec<L>> a3("vec<cv_l>"); static As<var<uint8_t, L>> a4("var<uint8,cv_l>"); static As<opt<LL>> a5("opt<cv_ll>"); static As<std::map<uint8_t, L>> a6("map<uint8,cv_l>");
static void find(const char* t, const std::string& k, const Args& a, Out& o) { auto& m = table()[t]; auto i = m.find(k); if (i == m.end()) { fprintf(stderr, "no %s %s\n", t, k.c_str()); _exit(99); } i->second(a, o); }
OP(cv) { find(a[2].c_str(), a[0] + ">" + a[1], a, o); }
OP(cv_from) { find("from", a[0], a, o); }
OP(cv_cut) { find("cut", a[0], a, o); }
OP(cv_reuse) { find("reuse", a[0], a, o); }
OP(cv_list) { std::string s; for (auto& [k, f] : table()["1"]) s += k + " "; o.str(s); s = ""; for (auto& [k, f] : table()["2"]) s += k + " "; o.str(s); }
}
