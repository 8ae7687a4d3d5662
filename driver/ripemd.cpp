#include "drv.hpp"
#include <cassert>
#include <memory>
#include <eosio/abieos_ripemd160.hpp>
using namespace abieos_ripemd160;
static void upd(ripemd160_state& s, const std::string& m) { Exact e(m); ripemd160_update(&s, e.begin(), int(e.n)); }
static void dig(const ripemd160_state& s, Out& o) { unsigned char d[20]; need(ripemd160_digest(&s, d)); o.raw(d, 20); }
OP(rmd) { ripemd160_state s; ripemd160_init(&s); for (auto& m : a) upd(s, m); dig(s, o); }
OP(rmd_run) { ripemd160_state s; ripemd160_init(&s); for (auto& m : a) { upd(s, m); dig(s, o); } }
OP(rmd_fork) { ripemd160_state s, t; ripemd160_init(&s); upd(s, a[0]); ripemd160_copy(&s, &t); upd(s, a[1]); upd(t, a[2]); dig(s, o); dig(t, o); dig(s, o); }
OP(rmd_state) { ripemd160_state s; ripemd160_init(&s); memcpy(s.h, a[0].data(), 20); s.length = num<uint64_t>(a[1]); upd(s, a[2]); dig(s, o); }
// n zero bytes given at once, in uneven pieces, and the chaining value, bit count and open bytes before the padding
OP(rmd_huge) {
   size_t n = num<uint64_t>(a[0]), piece = num<uint64_t>(a[1]);
   std::unique_ptr<char[], void (*)(void*)> m((char*)calloc(n, 1), [](void* p) { free(p); });
   need(bool(m));
   ripemd160_state s, t; ripemd160_init(&s); ripemd160_init(&t);
   ripemd160_update(&s, m.get(), int(n));
   for (size_t at = 0; at < n; at += piece) ripemd160_update(&t, m.get() + at, int(std::min(piece, n - at)));
   o.raw(t.h, 20); dig(s, o); dig(t, o);
}
