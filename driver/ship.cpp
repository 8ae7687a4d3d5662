#include "drv.hpp"
#include <eosio/ship_protocol.hpp>
#include <eosio/name.hpp>
using namespace eosio;
OP(ship_status) { auto s = ship_protocol::get_transaction_status(a[0]); o.num(uint8_t(s)); o.str(ship_protocol::to_string(s)); }
OP(ship_status_name) { o.str(ship_protocol::to_string(ship_protocol::transaction_status(uint8_t(a[0][0])))); }
