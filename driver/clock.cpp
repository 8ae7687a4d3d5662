#include "drv.hpp"
#include <eosio/time.hpp>
#include <eosio/varint.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <functional>
#include <unistd.h>
using namespace eosio;
namespace {
struct Regs { microseconds u[2]; time_point p[2]; time_point_sec s[2]; block_timestamp b[2]; unsigned_int v[2]; signed_int w[2]; };
std::string ans;
template <typename T> void tell(T x) { ans.append((const char*)&x, sizeof x); }
void bit(bool x) { ans.push_back(x ? 1 : 0); }
template <typename A, typename N> void both(const A& x, N n) { bit(x == n); bit(n == x); bit(x != n); bit(n != x); bit(x < n); bit(n < x); bit(x >= n); bit(n >= x); }
using F = void (*)(Regs&, int, int, int64_t);
#define C(name, body) { name, [](Regs& r, int i, int j, int64_t x) { auto &u = r.u; (void)u; auto &p = r.p; auto &s = r.s; auto &b = r.b; auto &v = r.v; auto &w = r.w; uint32_t n = uint32_t(x); (void)p; (void)s; (void)b; (void)v; (void)w; (void)n; (void)i; (void)j; body; } }
const std::map<std::string, F> table = {
   C("us", u[i] = microseconds(x)), C("seconds", u[i] = seconds(x)), C("milliseconds", u[i] = milliseconds(x)), C("minutes", u[i] = minutes(x)), C("hours", u[i] = hours(x)), C("days", u[i] = days(x)),
   C("u+u", u[i] = u[i] + u[j]), C("u+=u", u[i] += u[j]), C("u-u", u[i] = u[i] - u[j]), C("u-=u", u[i] -= u[j]), C("umax", u[i] = microseconds::maximum()), C("usec", tell(u[i].to_seconds())),
   C("p=u", p[i] = time_point(u[j])), C("p=s", p[i] = s[j]), C("p=b", p[i] = b[j]), C("p.b", p[i] = b[j].to_time_point()), C("pmax", p[i] = time_point::max()),
   C("p+u", p[i] = p[i] + u[j]), C("p+=u", p[i] += u[j]), C("p-u", p[i] = p[i] - u[j]), C("p-=u", p[i] -= u[j]), C("p+p", p[i] = p[i] + p[j]),
   C("p=s+u", p[i] = s[j] + u[i]), C("p=s-u", p[i] = s[j] - u[i]), C("u=p-p", u[i] = p[i] - p[j]), C("u=s-s", u[i] = s[i] - s[j]), C("u=p-s", u[i] = p[i] - s[j]), C("u=p", u[i] = p[j].time_since_epoch()),
   C("psec", tell(p[i].sec_since_epoch())), C("s", s[i] = time_point_sec(n)), C("s=p", s[i] = p[j]), C("s(p)", s[i] = time_point_sec(p[j])),
   C("s+=n", s[i] += n), C("s+n", s[i] = s[i] + n), C("s-=n", s[i] -= n), C("s-n", s[i] = s[i] - n), C("s+=u", s[i] += u[j]), C("s-=u", s[i] -= u[j]), C("s+=s", s[i] += s[j]), C("s-=s", s[i] -= s[j]),
   C("smax", s[i] = time_point_sec::maximum()), C("smin", s[i] = time_point_sec::min()), C("s0", s[i] = time_point_sec()),
   C("b", b[i] = block_timestamp(n)), C("b=p", b[i] = p[j]), C("b(p)", b[i] = block_timestamp(p[j])), C("b(s)", b[i] = block_timestamp(s[j])), C("bnext", b[i] = b[j].next()), C("bmin", b[i] = block_timestamp::min()), C("b0", b[i] = block_timestamp()),
   C("v", v[i] = unsigned_int(n)), C("v=", v[i] = n), C("v64", v[i] = unsigned_int(uint64_t(x))), C("v=v", v[i] = v[j]), C("v?n", both(v[i], n)),
   C("vas", tell(static_cast<uint64_t>(v[i])); tell(static_cast<uint8_t>(v[i])); tell(static_cast<int32_t>(v[i])); bit(static_cast<bool>(v[i]))),
   C("w", w[i] = signed_int(int32_t(n))), C("w=n", w[i] = int32_t(n)), C("w=n64", w[i] = x), C("++w", tell((++w[i]).value)), C("w++", tell((w[i]++).value)), C("w?n", both(w[i], int32_t(n))),
   C("was", tell(int64_t(w[i])); bit(int32_t(w[i]) != 0)), C("w=v", w[i] = static_cast<uint32_t>(v[j])),
};
template <typename T> void six(T* x) { bit(x[0] == x[1]); bit(x[0] != x[1]); bit(x[0] < x[1]); bit(x[0] > x[1]); bit(x[0] <= x[1]); bit(x[0] >= x[1]); }
template <typename T> void four(T* x) { bit(x[0] == x[1]); bit(x[0] != x[1]); bit(x[0] < x[1]); bit(x[0] >= x[1]); }
}
OP(clock) {
   Regs r;
   for (size_t k = 0; k + 2 < a.size(); k += 3) {
      auto f = table.find(a[k]);
      if (f == table.end()) _exit(99);
      ans.clear();
      bool ok = true;
      try { f->second(r, a[k + 1][0] - 1, a[k + 1][1] - 1, num<int64_t>(a[k + 2])); } catch (std::exception&) { ok = false; }
      std::string more = ans;
      ans.assign(1, ok);
      for (auto& x : r.u) tell(x.count());
      for (auto& x : r.p) tell(x.elapsed._count);
      for (auto& x : r.s) tell(x.sec_since_epoch());
      for (auto& x : r.b) tell(x.slot);
      for (auto& x : r.v) tell(x.value);
      for (auto& x : r.w) tell(x.value);
      six(r.u); six(r.p); six(r.s); six(r.b); four(r.v); four(r.w);
      o.str(ans + more);
   }
}
