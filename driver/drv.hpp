// Line protocol driver: "<id> <op> <hex>..." -> "<id> ok|err <mem_kb> <hex>..."
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
using Args = std::vector<std::string>;
struct Out : std::vector<std::string> {
   void raw(const void* p, size_t n) { emplace_back(n ? std::string((const char*)p, n) : std::string()); }
   template <typename T> void num(T v) { raw(&v, sizeof(v)); }
   void str(std::string_view s) { emplace_back(s); }
   void vec(const std::vector<char>& v) { raw(v.data(), v.size()); }
   void flag(bool b) { emplace_back(1, char(b)); }
};
using OpFn = void (*)(const Args&, Out&);
std::map<std::string, OpFn>& registry();
struct Reg { Reg(const char* n, OpFn f) { registry()[n] = f; } };
#define OP(name)                                                                                                       \
   static void op_##name(const Args& a, Out& o);                                                                       \
   static Reg  reg_##name(#name, op_##name);                                                                           \
   static void op_##name(const Args& a, Out& o)
#define OPF(name, fn) static Reg reg_##name(#name, fn)

// exact-size heap copies, so that a read outside of them is seen
struct Exact {
   std::unique_ptr<char[]> p; size_t n;
   explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
   const char* begin() const { return p.get(); }
   const char* end() const { return p.get() + n; }
   std::string_view sv() const { return { p.get(), n }; }
};
struct CStr { // NUL terminated, exact
   std::unique_ptr<char[]> p;
   explicit CStr(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.data(), s.size()); p[s.size()] = 0; }
   char* get() const { return p.get(); }
};
template <typename T> T num(const std::string& s) {
   T v{};
   memcpy(&v, s.data(), s.size() < sizeof(T) ? s.size() : sizeof(T));
   return v;
}
inline void need(bool b, const char* m = "fail") { if (!b) throw std::runtime_error(m); }
