// conversions with a hook of the caller's (eosio::abi_type)
#include "drv.hpp"
#include "abieos.hpp"
using namespace eosio;
namespace {
abi& loaded(const std::string& text) {
   static std::map<std::string, std::unique_ptr<abi>> all;
   auto& p = all[text];
   if (!p) { CStr t(text); json_token_stream s(t.get()); abi_def def; from_json(def, s); auto x = std::make_unique<abi>(); convert(def, *x); p = std::move(x); }
   return *p;
}
struct Stop { int n; };
struct Halt : std::runtime_error { int n; Halt(int n) : runtime_error("halt"), n(n) {} };
struct Result { bool ok = false; std::string r; bool operator==(const Result& o) const { return ok == o.ok && r == o.r; } };
Result conversion(const abi_type* t, int way, const Exact& e, std::function<void()> f, input_stream* in = nullptr) {
   Result x;
   input_stream own(e.begin(), e.n);
   auto run = [&] {
      if (way == 2) { auto& s = in ? *in : own; s = {e.begin(), e.n}; x.r = f ? t->bin_to_json(s, f) : t->bin_to_json(s); need(s.pos == s.end, "bytes left"); }
      else { auto v = way ? (f ? t->json_to_bin_reorderable(e.sv(), f) : t->json_to_bin_reorderable(e.sv())) : (f ? t->json_to_bin(e.sv(), f) : t->json_to_bin(e.sv())); x.r.assign(v.begin(), v.end()); }
      x.ok = true;
   };
   try { run(); } catch (Halt&) { throw; } catch (std::exception&) { x.r.clear(); }
   return x;
}
}
OP(hook) {
   auto* t = loaded(a[0]).get_type(a[1]);
   int way = a[2][0], kind = a[5][0];
   Exact e(a[3]);
   auto plain = conversion(t, way, e, {});
   o.flag(plain.ok); o.str(plain.r);
   uint32_t n = 0;
   input_stream in(e.begin(), e.n);
   std::vector<uint32_t> at;
   auto counted = conversion(t, way, e, [&] { ++n; if (at.size() < 64) at.push_back(way == 2 ? in.pos - e.begin() : 0); }, &in);
   o.flag(counted == plain);
   o.num(n);
   uint32_t k = 1 + num<uint32_t>(a[4]) % (n + 1), calls = 0;
   bool mine = false, clean = true;
   try {
      auto r = conversion(t, way, e, [&] {
         if (++calls != k) return;
         if (kind == 0) throw Stop{4711};
         if (kind == 1) throw Halt{4712};
         throw std::string("a string");
      });
      clean = r == plain;
   } catch (Stop& s) { mine = kind == 0 && s.n == 4711; } catch (Halt& h) { mine = kind == 1 && h.n == 4712; } catch (std::string& s) { mine = kind == 2 && s == "a string"; }
   o.flag(mine); o.num(calls); o.flag(clean);
   o.flag(conversion(t, way, e, {}) == plain); // afterwards
   bool same = true; int left = 12;
   auto re = conversion(t, way, e, [&] { if (left-- > 0) same = same && conversion(t, way, e, {}) == plain; });
   o.flag(same); o.flag(re == plain);
   std::string ps; for (auto p : at) ps.append((char*)&p, 4);
   o.raw(ps.data(), way == 2 ? ps.size() : 0);
}
// a count that says there are very many values of no size: only the hook ends this
OP(endless) {
   auto* t = loaded(a[0]).get_type(a[1]);
   Exact e(a[2]);
   uint32_t k = num<uint32_t>(a[3]), calls = 0;
   input_stream in(e.begin(), e.n);
   bool stopped = false;
   try { t->bin_to_json(in, [&] { if (++calls == k) throw Stop{1}; }); } catch (Stop&) { stopped = true; }
   o.flag(stopped); o.flag(calls == k);
}
