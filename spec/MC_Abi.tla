------------------------------- MODULE MC_Abi --------------------------------
(* Definitions grown one piece at a time.  The lazy resolution (Meaning) and   *)
(* the declarative reading (Declared) agree on every one of them, and a        *)
(* definition is read back from its JSON text and its binary.                  *)
EXTENDS Abi, Json
CONSTANT Steps, Rich
VARIABLES vD, vK
vars == <<vD, vK>>
NamePool == IF Rich THEN {B("a"), B("b"), B("a?")} ELSE {B("a"), B("b")}
Bases == NamePool \cup {B("c"), B("int8")}
Sufs == IF Rich THEN {<<>>, Qm, Br, Dl} ELSE {<<>>, Br, Dl}
Exprs == {x \o s : x \in {B("a"), B("b"), B("int8")}, s \in Sufs} \cup (IF Rich THEN {B("b[]?"), B("a?$"), B("b$$"), B("int8$[]"), B("c")} ELSE {B("c"), B("a$?")})
LastOf(s) == s[Len(s)]
Init == vK = 0 /\ vD = [version |-> B("eosio::abi/1.1"), types |-> <<>>, structs |-> <<>>, actions |-> <<>>, tables |-> <<>>, variants |-> <<>>]
AddAlias == \E n \in NamePool, t \in Exprs : vD' = [vD EXCEPT !.types = Append(@, [n |-> n, t |-> t])]
AddStruct == \E n \in NamePool, b \in {<<>>} \cup Bases \cup {B("a[]")} : vD' = [vD EXCEPT !.structs = Append(@, [n |-> n, b |-> b, f |-> <<>>])]
AddField == \E t \in Exprs : Len(vD.structs) > 0 /\ vD' = [vD EXCEPT !.structs[Len(vD.structs)].f = Append(@, [n |-> <<102, 48 + vK>>, t |-> t])]
AddVariant == \E n \in NamePool : vD' = [vD EXCEPT !.variants = Append(@, [n |-> n, ts |-> <<>>])]
AddAlt == \E t \in Exprs : Len(vD.variants) > 0 /\ vD' = [vD EXCEPT !.variants[Len(vD.variants)].ts = Append(@, t)]
Next == vK < Steps /\ vK' = vK + 1 /\ (AddAlias \/ AddStruct \/ AddField \/ AddVariant \/ AddAlt)
Emit == PrintT("CASE " \o ToJson([d |-> vD']))
Spec == Init /\ [][Next /\ Emit]_vars
NextQ == Next
SpecQ == Init /\ [][NextQ]_vars
\* resolution finds exactly what the definitions say
Resolves == LET m == Meaning(vD) c == Declared(vD) IN
  /\ m.ok = c.ok
  /\ m.ok => \A n \in DOMAIN c.env : m.env[n] = c.env[n]
\* everything refers to entries that exist and are not aliases, and wrappers are not nested
Closed == LET m == Meaning(vD) IN m.ok => \A n \in DOMAIN m.env :
  LET e == m.env[n] target(t) == t \in DOMAIN m.env /\ m.env[t].k \in {"builtin", "optional", "array", "extension", "struct", "variant"} IN
  CASE e.k \in {"struct", "variant"} -> \A i \in 1..Len(e.f) : target(e.f[i].t)
    [] e.k \in {"optional", "array"} -> target(e.of) /\ m.env[e.of].k \notin Wrapped
    [] e.k = "extension" -> target(e.of) /\ m.env[e.of].k # "extension"
    [] e.k = "alias" -> target(e.of) /\ m.env[e.of].k # "extension"
    [] OTHER -> e.k = "builtin"
Exports == ExportKeeps(vD)
Reads == AbiOfJson(AbiText(vD)) = [ok |-> TRUE, d |-> vD] /\ AbiOfBin(AbiBin(vD)) = [ok |-> TRUE, d |-> vD]
=============================================================================
