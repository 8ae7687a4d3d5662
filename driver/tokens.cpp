// the JSON token reader, call by call
#include "drv.hpp"
#include <eosio/from_json.hpp>
#include <memory>
#include <unistd.h>
namespace {
std::string look(const eosio::json_token& t) {
   using T = eosio::json_token_type;
   switch (t.type) {
      case T::type_unread: return std::string(1, 0);
      case T::type_null: return std::string(1, 1);
      case T::type_bool: return std::string(1, 2) + char(t.value_bool ? 1 : 0);
      case T::type_string: return std::string(1, 3) + std::string(t.value_string);
      case T::type_start_object: return std::string(1, 4);
      case T::type_key: return std::string(1, 5) + std::string(t.key);
      case T::type_end_object: return std::string(1, 6);
      case T::type_start_array: return std::string(1, 7);
      case T::type_end_array: return std::string(1, 8);
   }
   return "?";
}
}
OP(tokens) { // text, calls, whether to stop at the first refusal (a text that is not JSON cannot be read on after the error) -> the answers; the answers again, with what they refer to as it is at the end
   std::unique_ptr<char[]> text(new char[a[0].size() + 1]);
   memcpy(text.get(), a[0].data(), a[0].size()); text[a[0].size()] = 0;
   eosio::json_token_stream s(text.get());
   struct Ans { std::string head; bool refers = false; std::string_view to; std::string full() const { return refers ? head + std::string(to) : head; } };
   std::vector<Ans> all;
   for (char op : a[1]) {
      Ans r; r.head = std::string(1, 1);
      auto yes = [&](bool b) { r.head += char(b ? 1 : 0); };
      auto view = [&](std::string_view v) { r.refers = true; r.to = v; };
      try {
         switch (op) {
            case 'p': { const eosio::json_token& t = s.peek_token(); 
               if (t.type == eosio::json_token_type::type_string) { r.head += char(3); view(t.value_string); }
               else if (t.type == eosio::json_token_type::type_key) { r.head += char(5); view(t.key); }
               else r.head += look(t);
               break; }
            case 'e': s.eat_token(); break;
            case 'x': yes(s.complete()); break;
            case 'E': s.get_end(); break;
            case 'n': yes(s.get_null_pred()); break;
            case 'N': s.get_null(); break;
            case 'b': yes(s.get_bool()); break;
            case 's': view(s.get_string()); break;
            case 'o': s.get_start_object(); break;
            case 'k': view(s.get_key()); break;
            case 'm': { auto k = s.maybe_get_key(); yes(bool(k)); if (k) view(*k); break; }
            case 'c': yes(s.get_end_object_pred()); break;
            case 'C': s.get_end_object(); break;
            case 'a': yes(s.get_start_array_pred()); break;
            case 'A': s.get_start_array(); break;
            case 'z': yes(s.get_end_array_pred()); break;
            case 'Z': s.get_end_array(); break;
            default: _exit(99);
         }
      } catch (std::exception&) { r = {}; r.head = std::string(1, 0); }
      o.str(r.full()); all.push_back(r);
      if (a[2] == "1" && r.head[0] == 0) break;
   }
   for (auto& r : all) o.str(r.full());
}
