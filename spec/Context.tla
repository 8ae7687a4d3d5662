------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* A context of the C interface as a state machine: the ABIs in force and   *)
(* the retrievable binary.  Everything a call may answer is a function of    *)
(* this state and the call's arguments.                                     *)
(*   [abis: contract -> what was loaded, bin: set of possible contents]       *)
(***************************************************************************)
EXTENDS Abi
\* a recorded answer: [ok, out]; a loaded ABI: [ok, d, env]
NewCtx == [abis |-> <<>>, bin |-> {<<>>}]

\* what the specification leaves open for a document
OpenDoc(ev) == \E i \in 1..Len(ev) : ev[i].t \in {"str", "num"} /\ \E n \in {"time_point", "time_point_sec", "block_timestamp_type", "float32"} : ScalarOpen(n, ev[i])
\* (times are checked first by their first character, so that the usual strings cost nothing)
MaybeOpen(ev) == \E i \in 1..Len(ev) : ev[i].t = "num" \/ (ev[i].t = "str" /\ Len(ev[i].v) > 0 /\ ev[i].v[1] \in {43, 45, 46} \cup 48..57)
Loose(ev) == MaybeOpen(ev) /\ OpenDoc(ev)
\* an empty container as the innermost of 129 (ordered) or any of 128 (by name) may or may not count as too deep
AtBorder(ev, reorder) == JsonDepth(ev) = IF reorder THEN MaxOpen ELSE MaxOpen + 1
ANY == [any |-> TRUE]
Only(r) == [any |-> FALSE, r |-> r]
\* the binary of a JSON text for a type, or failure, or anything
ToBin(m, type, json, reorder) ==
  LET q == Query(m.env, type)
      d == IF \E i \in 1..Len(json) : json[i] = 0 THEN NoJson ELSE Events(json)
  IN IF ~q.ok THEN Only(FAIL)
     ELSE IF LoneLow(json) THEN ANY
     ELSE IF ~d.ok THEN Only(FAIL)
     ELSE IF Loose(d.ev) \/ AtBorder(d.ev, reorder) THEN ANY
     ELSE LET r == IF reorder THEN FromAnyOrder(q.env, q.n, d.ev) ELSE FromOrdered(q.env, q.n, d.ev) IN
          Only(IF r.ok THEN OK(Wire(r.v)) ELSE FAIL)
\* is this the JSON of a binary for a type? got: [ok, out]
ToJsonIs(m, type, bin, got) ==
  LET q == Query(m.env, type)
      r == FromWire(q.env, q.n, bin)
  IN IF ~q.ok THEN ~got.ok ELSE IF ~r.ok THEN ~got.ok ELSE IF ~got.ok THEN FALSE
     ELSE LET d == Events(got.out) IN d.ok /\ EvsFit(d.ev, JsonOf(q.env, q.n, r.v))

\* ------------------------------------------------------------------ calls
\* [op, contract, a, b]; load: what the ABI given to a loading call means
Loads == {"set_abi", "set_abi_bin", "set_abi_hex"}
Bins == {"json_to_bin", "json_to_bin_reorderable"}
Jsons == {"bin_to_json", "hex_to_json"}
Has(c, contract) == contract \in DOMAIN c.abis
Allowed(c, call, load, got) ==
  CASE call.op \in Loads -> got.ok = load.ok
    [] call.op \in {"action", "table"} ->
         LET m == c.abis[call.contract] a == LookUp(IF call.op = "action" THEN m.d.actions ELSE m.d.tables, call.a) IN
         IF ~Has(c, call.contract) THEN ~got.ok
         ELSE got.ok = a.ok /\ (a.ok => got.out = a.out[1])
    [] call.op \in Bins ->
         IF ~Has(c, call.contract) THEN ~got.ok
         ELSE LET w == ToBin(c.abis[call.contract], call.a, call.b, call.op # "json_to_bin") IN
              w.any \/ (got.ok = w.r.ok /\ (got.ok => got.out = w.r.out))
    [] call.op \in Jsons ->
         IF ~Has(c, call.contract) THEN ~got.ok
         ELSE IF call.op = "hex_to_json" /\ ~IsHex(call.b) THEN ~got.ok
         ELSE ToJsonIs(c.abis[call.contract], call.a, IF call.op = "hex_to_json" THEN UnHex(call.b) ELSE call.b, got)
    [] call.op = "bin" -> got.ok /\ \E b \in c.bin : got.out = b \o HexUpper(b)
    [] call.op = "name_to_string" -> got.ok /\ got.out = NameText(call.contract)
    [] call.op = "string_to_name" -> got.ok /\ got.out = NameOf(call.a)
    [] call.op = "new" -> got.ok
After(c, call, load, got) ==
  CASE call.op \in Loads -> IF got.ok THEN [c EXCEPT !.abis = (call.contract :> load) @@ @] ELSE c
    [] call.op \in Bins -> [c EXCEPT !.bin = IF got.ok THEN {got.out} ELSE @ \cup {<<>>}]
    [] call.op = "new" -> NewCtx
    [] OTHER -> c
\* a null context refuses everything (names excepted)
AllowedNull(call, got) == IF call.op = "string_to_name" THEN got.ok /\ got.out = NameOf(call.a)
                          ELSE IF call.op = "bin" THEN got.ok /\ got.out = <<>> ELSE ~got.ok
=============================================================================
