#include "drv.hpp"
#include <eosio/varint.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
using namespace eosio;
OP(vu_enc) { auto v = num<uint32_t>(a[0]);
   std::vector<char> b; push_varuint32(b, v); o.vec(b); o.vec(convert_to_bin(varuint32{ v }));
   size_stream ss; varuint32_to_bin(v, ss); o.num(uint32_t(ss.size));
   char buf[5]; fixed_buf_stream fb(buf, b.size()); varuint32_to_bin(v, fb); need(fb.pos == fb.end); o.raw(buf, b.size());
   std::vector<char> c; vector_stream vs{ c }; to_bin(varuint32{ v }, vs); o.vec(c); }
OP(vs_enc) { auto v = num<int32_t>(a[0]); o.vec(convert_to_bin(varint32{ v })); size_stream ss; to_bin(varint32{ v }, ss); o.num(uint32_t(ss.size)); }
OP(vu_enc64) { std::vector<char> b; vector_stream vs{ b }; varuint32_to_bin(num<uint64_t>(a[0]), vs); o.vec(b); }
OP(vu_dec) { Exact e(a[0]); input_stream s{ e.begin(), e.end() }; uint32_t v = 0xdeadbeef; varuint32_from_bin(v, s); o.num(v); o.num(uint32_t(s.pos - e.begin())); o.raw(s.pos, s.remaining()); }
OP(vu_obj_dec) { Exact e(a[0]); input_stream s{ e.begin(), e.end() }; varuint32 v{ 0xffffffffu }; from_bin(v, s); o.num(v.value); o.num(uint32_t(s.pos - e.begin())); }
OP(vs_dec) { Exact e(a[0]); input_stream s{ e.begin(), e.end() }; varint32 v{ -1 }; from_bin(v, s); o.num(v.value); o.num(uint32_t(s.pos - e.begin())); }
OP(vu64_dec) { Exact e(a[0]); input_stream s{ e.begin(), e.end() }; uint64_t v = ~0ull; varuint64_from_bin(v, s); o.num(v); o.num(uint32_t(s.pos - e.begin())); }
OP(vu_fail_pos) { Exact e(a[0]); input_stream s{ e.begin(), e.end() }; uint32_t v; bool ok = true;
   try { varuint32_from_bin(v, s); } catch (std::exception&) { ok = false; }
   o.flag(ok); o.num(uint32_t(s.pos - e.begin())); }
OP(vu_string) { Exact e(a[0]); input_stream s{ e.begin(), e.end() }; std::string v; from_bin(v, s); o.str(v); o.num(uint32_t(s.pos - e.begin())); }
