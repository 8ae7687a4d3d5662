#include "drv.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/stream.hpp>
#include <eosio/to_bin.hpp>
using namespace eosio;
template <typename S> static void raw(S& s, const std::string& b) {
   if (b.size() == 1) { s.write_raw(uint8_t(b[0])); } else if (b.size() == 2) s.write_raw(num<uint16_t>(b)); else if (b.size() == 4) s.write_raw(num<uint32_t>(b)); else s.write_raw(num<uint64_t>(b));
}
template <typename S> static void array(S& s, const std::string& b) {
   if constexpr (std::is_base_of_v<vector_stream, S>) s.write(b.data(), b.size());
   else if (b.size() == 3) { const char x[3] = { b[0], b[1], b[2] }; s.write(x); }
   else { const char x[5] = { b[0], b[1], b[2], b[3], b[4] }; s.write(x); }
}
template <typename S, typename L> static void outs(S& s, const Args& a, Out& o, L len) {
   std::string flags, at;
   for (size_t i = 2; i < a.size(); ++i) {
      char k = a[i][0]; Exact b(a[i].substr(1)); std::string t = a[i].substr(1);
      bool ok = true;
      try {
         if (k == 'c') s.write(t[0]);
         else if (k == 'w') s.write(b.begin(), b.n);
         else if (k == 'a') array(s, t);
         else if (k == 'r') raw(s, t);
         else if (k == 'h') s.write(b.begin(), num<uint64_t>(t));
         else if (k == '+') increase_indent(s);
         else if (k == '-') decrease_indent(s);
         else if (k == 'n') write_newline(s);
         else if (k == ':') write_colon(s);
      } catch (std::exception&) { ok = false; }
      flags += char(ok); uint32_t n = len(); at.append((char*)&n, 4);
   }
   o.push_back(flags); o.push_back(at);
}
OP(out_seq) {
   size_t cap = num<uint32_t>(a[1]);
   std::unique_ptr<char[]> buf(new char[cap]); memset(buf.get(), 0xEE, cap);
   std::vector<char> v;
   switch (a[0][0]) {
      case 0: { fixed_buf_stream s(buf.get(), cap); outs(s, a, o, [&] { return uint32_t(s.pos - buf.get()); }); o.raw(buf.get(), cap); return; }
      case 1: { size_stream s; outs(s, a, o, [&] { return uint32_t(s.size); }); o.str(""); return; }
      case 2: { vector_stream s(v); outs(s, a, o, [&] { return uint32_t(v.size()); }); o.vec(v); return; }
      case 3: { pretty_stream<fixed_buf_stream> s(buf.get(), cap); outs(s, a, o, [&] { return uint32_t(s.pos - buf.get()); }); o.raw(buf.get(), cap); return; }
      case 4: { pretty_stream<size_stream> s; outs(s, a, o, [&] { return uint32_t(s.size); }); o.str(""); return; }
      default: { pretty_stream<vector_stream> s(v); outs(s, a, o, [&] { return uint32_t(v.size()); }); o.vec(v); return; }
   }
}
OP(in_seq) {
   Exact x(a[0]); input_stream s(x.begin(), x.n);
   std::string flags, at; std::vector<std::string> answers;
   for (size_t i = 1; i < a.size(); ++i) {
      char k = a[i][0]; std::string t = a[i].substr(1), got; uint64_t n = num<uint64_t>(t);
      bool ok = true;
      try {
         if (k == 'r') { size_t room = n < 4096 ? n : 16; std::unique_ptr<char[]> b(new char[room]); s.read(b.get(), n); got.assign(b.get(), n); }
         else if (k == 'u') { const char* p = nullptr; s.read_reuse_storage(p, n); got.assign(p, n); }
         else if (k == 's') s.skip(n);
         else if (k == 'k') s.check_available(n);
         else if (k == 'm') { uint64_t m = s.remaining(); got.assign((char*)&m, 8); }
         else if (k == 'w') {
            if (t[0] == 1) { uint8_t v; s.read_raw(v); got.assign((char*)&v, 1); } else if (t[0] == 2) { uint16_t v; s.read_raw(v); got.assign((char*)&v, 2); }
            else if (t[0] == 4) { uint32_t v; s.read_raw(v); got.assign((char*)&v, 4); } else { uint64_t v; s.read_raw(v); got.assign((char*)&v, 8); } }
         else if (k == 'v') { uint32_t v; varuint32_from_bin(v, s); got.assign((char*)&v, 4); }
         else if (k == 'V') { uint64_t v; varuint64_from_bin(v, s); got.assign((char*)&v, 8); }
         else if (k == 'S') from_bin(got, s);
         else if (k == 'W') { std::string_view v; from_bin(v, s); got.assign(v.data(), v.size()); }
         else if (k == 'z') { input_stream v; from_bin(v, s); got.assign(v.pos, v.end - v.pos); }
      } catch (std::exception&) { ok = false; got.clear(); }
      flags += char(ok); uint32_t p = s.pos - x.begin(); at.append((char*)&p, 4); answers.push_back(got);
      if (!ok && !strchr("russkmw", k)) break;
   }
   o.push_back(flags); o.push_back(at);
   for (auto& g : answers) o.push_back(g);
}
