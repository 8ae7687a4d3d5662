// a session: calls on contexts (and the null one), each answered by one string: ok, error text?, payload
#include "drv.hpp"
#include "abieos.hpp"
#include "eosio/abieos.h"
#include <atomic>
#include <thread>
namespace {
constexpr unsigned N = 16;
struct Slot {
   abieos_context* c = nullptr; const char* data = nullptr; int size = 0; std::string copy;
   const char *text = nullptr, *error = nullptr; // what the last call handed out
   ~Slot() { abieos_destroy(c); }
   abieos_context* get() { if (!c) c = abieos_create(); return c; }
   std::string look() const { std::string r = text ? text : ""; r += '|'; if (error) r += error; r += '|'; if (data) r.append(data, size); return r; }
};
void run(const std::string* a, size_t n, Out& o, bool looks) {
   Slot s[N];
   for (size_t i = 0; i + 4 < n; i += 5) {
      auto& op = a[i];
      unsigned k = (unsigned char)a[i + 1][0];
      bool null = k >= N;
      auto* c = null ? nullptr : s[k].get();
      uint64_t at = num<uint64_t>(a[i + 2]);
      CStr x(a[i + 3]), y(a[i + 4]); Exact ex(a[i + 3]), ey(a[i + 4]);
      // empty strings are also passed as null pointers
      char *px = a[i + 3].empty() && i % 2 ? nullptr : x.get(), *py = a[i + 4].empty() && i % 2 ? nullptr : y.get();
      bool ok = true; std::string out; const char* res = nullptr;
      auto text = [&](const char* r) { ok = r; res = r; if (r) out = r; };
      if (op == "set_abi") ok = abieos_set_abi(c, at, px);
      else if (op == "set_abi_bin") ok = abieos_set_abi_bin(c, at, ex.begin(), ex.n);
      else if (op == "set_abi_hex") ok = abieos_set_abi_hex(c, at, px);
      else if (op == "action") text(abieos_get_type_for_action(c, at, num<uint64_t>(a[i + 3])));
      else if (op == "table") text(abieos_get_type_for_table(c, at, num<uint64_t>(a[i + 3])));
      else if (op == "json_to_bin" || op == "json_to_bin_reorderable") {
         ok = (op == "json_to_bin" ? abieos_json_to_bin : abieos_json_to_bin_reorderable)(c, at, px, py);
         if (c) {
            if (ok) { auto* d = abieos_get_bin_data(c); out.assign(d ? d : "", abieos_get_bin_size(c)); s[k].data = d; s[k].size = abieos_get_bin_size(c); s[k].copy = out; }
            else s[k].data = nullptr;
         }
      }
      else if (op == "bin_to_json") text(abieos_bin_to_json(c, at, px, ey.begin(), ey.n));
      else if (op == "hex_to_json") text(abieos_hex_to_json(c, at, px, py));
      else if (op == "bin") {
         int n = abieos_get_bin_size(c); auto* d = abieos_get_bin_data(c);
         if (n) out.assign(d, n);
         auto* h = abieos_get_bin_hex(c);
         if (c) { if (h) { out += h; res = h; } else ok = false; }
         // the memory handed out earlier is still the same
         if (c && s[k].data && std::string(s[k].data, s[k].size) != s[k].copy) out = "changed";
      }
      else if (op == "name_to_string") text(abieos_name_to_string(c, at));
      else if (op == "string_to_name") { uint64_t v = abieos_string_to_name(c, px); out.assign((char*)&v, 8); }
      else if (op == "new" && !null) { abieos_destroy(c); s[k].c = nullptr; s[k].data = nullptr; ok = s[k].get(); }
      else need(false, "bad call");
      auto* e = abieos_get_error(null ? nullptr : s[k].c);
      o.push_back(std::string(1, char(ok)) + std::string(1, char(e && e[0])) + out);
      if (!looks) continue;
      if (!null) { s[k].text = res; s[k].error = e; }
      // what every context has handed out, as it reads now: context, length, bytes
      std::string l;
      for (unsigned j = 0; j < N; ++j) if (s[j].c) { auto t = s[j].look(); l += char(j); l += char(t.size()); l += char(t.size() >> 8); l += t.substr(0, 65535); }
      o.push_back(l);
   }
}
}
OP(session) { run(a.data(), a.size(), o, false); }
OP(held) { run(a.data(), a.size(), o, true); }
// several sessions at the same time, each on contexts of its own; the first input holds their lengths (2 bytes each)
OP(threads) {
   size_t n = a[0].size() / 2;
   std::vector<Out> outs(n);
   std::vector<std::thread> ts;
   std::atomic<size_t> ready{ 0 };
   std::vector<std::string> errs(n);
   for (size_t t = 0, at = 1; t < n; ++t) {
      size_t len = (unsigned char)a[0][2 * t] + 256 * (unsigned char)a[0][2 * t + 1];
      ts.emplace_back([&, t, at, len] {
         ++ready; while (ready < n) std::this_thread::yield();
         try { run(a.data() + at, len, outs[t], true); } catch (std::exception& e) { errs[t] = std::string("!") + e.what(); }
      });
      at += len;
   }
   for (auto& t : ts) t.join();
   for (auto& e : errs) need(e.empty(), e.c_str());
   for (auto& x : outs) o.insert(o.end(), x.begin(), x.end());
}
// the same operations at the same time on several threads: all get what one alone gets.  op, number of inputs, inputs ...
OP(together) {
   std::vector<std::pair<std::string, Args>> ops;
   for (size_t i = 0; i + 1 < a.size();) { size_t n = (unsigned char)a[i + 1][0]; ops.emplace_back(a[i], Args(a.begin() + i + 2, a.begin() + i + 2 + n)); i += 2 + n; }
   auto all = [&](size_t from) { std::vector<Out> r(ops.size());
      for (size_t i = 0; i < ops.size(); ++i) { size_t k = (i + from) % ops.size(); try { registry().at(ops[k].first)(ops[k].second, r[k]); } catch (std::out_of_range&) { throw; } catch (std::exception& e) { r[k] = Out{}; r[k].push_back("refused"); } }
      return r; };
   for (auto& x : ops) need(registry().count(x.first));
   std::vector<std::vector<Out>> rs(4);
   std::vector<std::thread> ts;
   std::atomic<size_t> ready{ 0 };
   for (size_t t = 0; t < rs.size(); ++t) ts.emplace_back([&, t] { ++ready; while (ready < rs.size()) std::this_thread::yield(); rs[t] = all(t * ops.size() / 5); });
   for (auto& t : ts) t.join();
   auto alone = all(0);
   for (auto& r : rs) for (size_t i = 0; i < ops.size(); ++i) o.flag(static_cast<std::vector<std::string>&>(r[i]) == static_cast<std::vector<std::string>&>(alone[i]));
}
