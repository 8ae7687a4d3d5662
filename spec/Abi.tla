-------------------------------- MODULE Abi ---------------------------------
(***************************************************************************)
(* ABI definitions: reading them (JSON, binary), what a well-formed one     *)
(* means, and export.  A definition is                                      *)
(*   [version, types: seq of [n, t], structs: seq of [n, b, f: seq of       *)
(*    [n, t]], variants: seq of [n, ts], actions, tables: seq of [n, t]]    *)
(***************************************************************************)
EXTENDS Static

\* ---------------------------------------------------------------- the format of a definition, as a type
Str == B("string")
Fld(n, t) == [n |-> B(n), t |-> t]
StructE(fs) == [k |-> "struct", f |-> fs]
ArrOf(t) == [k |-> "array", of |-> t]
Vec(t) == t \o B("[]")
BuiltinEnv == TLCEval([b \in DOMAIN ScalarOf |-> [k |-> "builtin", n |-> ScalarOf[b]]])
MetaEnv == TLCEval(BuiltinEnv @@
  (B("type_def") :> StructE(<<Fld("new_type_name", Str), Fld("type", Str)>>)) @@
  (B("field_def") :> StructE(<<Fld("name", Str), Fld("type", Str)>>)) @@
  (B("struct_def") :> StructE(<<Fld("name", Str), Fld("base", Str), Fld("fields", Vec(B("field_def")))>>)) @@
  (B("action_def") :> StructE(<<Fld("name", B("name")), Fld("type", Str), Fld("ricardian_contract", Str)>>)) @@
  (B("table_def") :> StructE(<<Fld("name", B("name")), Fld("index_type", Str), Fld("key_names", Vec(Str)), Fld("key_types", Vec(Str)), Fld("type", Str)>>)) @@
  (B("clause_pair") :> StructE(<<Fld("id", Str), Fld("body", Str)>>)) @@
  (B("error_message") :> StructE(<<Fld("error_code", B("uint64")), Fld("error_msg", Str)>>)) @@
  (B("extension_pair") :> [k |-> "pair", f |-> <<Fld("first", B("uint16")), Fld("second", B("bytes"))>>]) @@
  (B("variant_def") :> StructE(<<Fld("name", Str), Fld("types", Vec(Str))>>)) @@
  (B("abi_def") :> StructE(<<Fld("version", Str), Fld("types", Vec(B("type_def"))), Fld("structs", Vec(B("struct_def"))), Fld("actions", Vec(B("action_def"))),
     Fld("tables", Vec(B("table_def"))), Fld("ricardian_clauses", Vec(B("clause_pair"))), Fld("error_messages", Vec(B("error_message"))),
     Fld("abi_extensions", Vec(B("extension_pair"))), Fld("variants", B("variants?"))>>)) @@
  (B("variants?") :> [k |-> "tail", of |-> Vec(B("variant_def"))]) @@
  [b \in {Vec(B(n)) : n \in {"type_def", "field_def", "struct_def", "action_def", "table_def", "clause_pair", "error_message", "extension_pair", "variant_def", "string"}} |->
     ArrOf(Take(b, Len(b) - 2))])
\* ---------------------------------------------------------------- value tree of a definition -> definition
SText(v) == Payload(v.b)
Def(v) == LET f == v.f IN
  [version |-> SText(f[1]),
   types |-> [i \in 1..Len(f[2].a) |-> LET x == f[2].a[i].f IN [n |-> SText(x[1]), t |-> SText(x[2])]],
   structs |-> [i \in 1..Len(f[3].a) |-> LET x == f[3].a[i].f IN [n |-> SText(x[1]), b |-> SText(x[2]),
                  f |-> [j \in 1..Len(x[3].a) |-> [n |-> SText(x[3].a[j].f[1]), t |-> SText(x[3].a[j].f[2])]]]],
   actions |-> [i \in 1..Len(f[4].a) |-> LET x == f[4].a[i].f IN [n |-> x[1].b, t |-> SText(x[2])]],
   tables |-> [i \in 1..Len(f[5].a) |-> LET x == f[5].a[i].f IN [n |-> x[1].b, t |-> SText(x[5])]],
   variants |-> [i \in 1..Len(f[9].a) |-> LET x == f[9].a[i].f IN [n |-> SText(x[1]), ts |-> [j \in 1..Len(x[2].a) |-> SText(x[2].a[j])]]]]
NoDef == [ok |-> FALSE]
GoodVersion(b) == Starts(b, B("eosio::abi/1."))
Versioned(d) == IF GoodVersion(d.version) THEN [ok |-> TRUE, d |-> d] ELSE NoDef
AbiOfJson(text) ==
  IF \E i \in 1..Len(text) : text[i] = 0 THEN NoDef ELSE
  LET e == Events(text) IN IF ~e.ok THEN NoDef ELSE
  LET r == FromStatic(MetaEnv, B("abi_def"), e.ev) IN IF r.ok THEN Versioned(Def(r.v)) ELSE NoDef
\* bytes behind the definition are ignored
AbiOfBin(s) == LET r == StaticDec(MetaEnv, B("abi_def"), s, 1) IN IF s # <<>> /\ r.ok THEN Versioned(Def(r.v)) ELSE NoDef

\* ---------------------------------------------------------------- meaning
(* The definitions refer to each other by name.  A name that is not defined may  *)
(* be a defined one with suffixes "?", "[]", "$".  Meaning(d) is the environment  *)
(* in which every definition refers to entries that are not aliases, or failure.  *)
Qm == B("?")
Br == B("[]")
Dl == B("$")
MaxChain == 32
Names0(d) == [i \in 1..Len(d.types) |-> d.types[i].n] \o [i \in 1..Len(d.structs) |-> d.structs[i].n] \o [i \in 1..Len(d.variants) |-> d.variants[i].n]
Predefined == TLCEval(BuiltinEnv @@ (B("extended_asset") :> StructE(<<Fld("quantity", B("asset")), Fld("contract", B("name"))>>)))
Distinct(ns) == /\ \A i \in 1..Len(ns) : ns[i] # <<>> /\ ns[i] \notin DOMAIN Predefined
                /\ Cardinality({ns[i] : i \in 1..Len(ns)}) = Len(ns)
Defined(d) == Predefined @@
  [x \in {d.types[i].n : i \in 1..Len(d.types)} |-> [k |-> "alias def", of |-> d.types[CHOOSE i \in 1..Len(d.types) : d.types[i].n = x].t]] @@
  [x \in {d.structs[i].n : i \in 1..Len(d.structs)} |-> LET s == d.structs[CHOOSE i \in 1..Len(d.structs) : d.structs[i].n = x] IN [k |-> "struct def", b |-> s.b, f |-> s.f]] @@
  [x \in {d.variants[i].n : i \in 1..Len(d.variants)} |-> [k |-> "variant def", ts |-> d.variants[CHOOSE i \in 1..Len(d.variants) : d.variants[i].n = x].ts]]

NoEnv == [ok |-> FALSE]
Got(env, n) == [ok |-> TRUE, env |-> env, n |-> n]
\* the entry a name stands for (never an alias), possibly adding derived entries; depth: length of the chain so far
RECURSIVE GetType(_, _, _), DefStruct(_, _, _), AddFields(_, _, _, _)
Derive(env, name, base, kind, depth, bad) ==
  LET r == GetType(env, base, depth + 1) IN
  IF ~r.ok THEN NoEnv ELSE IF r.env[r.n].k \in bad THEN NoEnv ELSE Got((name :> [k |-> kind, of |-> r.n]) @@ r.env, name)
Wrapped == {"optional", "array", "extension"}
GetType(env, name, depth) ==
  IF depth >= MaxChain THEN NoEnv
  ELSE IF name \notin DOMAIN env THEN
    IF Ends(name, Qm) THEN Derive(env, name, Take(name, Len(name) - 1), "optional", depth, Wrapped)
    ELSE IF Ends(name, Br) THEN Derive(env, name, Take(name, Len(name) - 2), "array", depth, Wrapped)
    ELSE IF Ends(name, Dl) THEN Derive(env, name, Take(name, Len(name) - 1), "extension", depth, {"extension"})
    ELSE NoEnv
  ELSE LET e == env[name] IN
    IF e.k = "alias" THEN Got(env, e.of)
    ELSE IF e.k = "alias def" THEN
      LET r == GetType(env, e.of, depth + 1) IN
      IF ~r.ok THEN NoEnv ELSE IF r.env[r.n].k = "extension" THEN NoEnv ELSE Got([r.env EXCEPT ![name] = [k |-> "alias", of |-> r.n]], r.n)
    ELSE Got(env, name)
AddFields(env, fs, depth, acc) == \* fs: sequence of [n, t]
  IF acc.j > Len(fs) THEN [ok |-> TRUE, env |-> env, f |-> acc.f]
  ELSE LET r == GetType(env, fs[acc.j].t, depth + 1) IN
       IF ~r.ok THEN NoEnv ELSE AddFields(r.env, fs, depth, [j |-> acc.j + 1, f |-> Append(acc.f, [n |-> fs[acc.j].n, t |-> r.n])])
\* the definition of a struct: fields of the base first
DefStruct(env, name, depth) ==
  LET e == env[name]
      r == GetType(env, e.b, depth + 1)
      b == IF r.ok /\ r.env[r.n].k = "struct def" THEN DefStruct(r.env, r.n, depth + 1) ELSE r
      based == IF e.b = <<>> THEN [ok |-> TRUE, env |-> env, f |-> <<>>]
               ELSE IF ~r.ok THEN NoEnv ELSE IF ~b.ok THEN NoEnv
               ELSE IF b.env[r.n].k # "struct" THEN NoEnv ELSE [ok |-> TRUE, env |-> b.env, f |-> b.env[r.n].f]
  IN IF depth >= MaxChain THEN NoEnv ELSE IF ~based.ok THEN NoEnv
     ELSE LET x == AddFields(based.env, e.f, depth, [j |-> 1, f |-> based.f]) IN
          IF ~x.ok THEN NoEnv ELSE [ok |-> TRUE, env |-> (name :> StructE(x.f)) @@ x.env]
Fill(env, name) ==
  LET e == env[name] IN
  CASE e.k = "alias def" -> LET r == GetType(env, e.of, 1) IN
         IF ~r.ok THEN NoEnv ELSE IF r.env[r.n].k = "extension" THEN NoEnv ELSE [ok |-> TRUE, env |-> (name :> [k |-> "alias", of |-> r.n]) @@ r.env]
    [] e.k = "struct def" -> DefStruct(env, name, 0)
    [] e.k = "variant def" -> LET x == AddFields(env, [i \in 1..Len(e.ts) |-> [n |-> e.ts[i], t |-> e.ts[i]]], 0, [j |-> 1, f |-> <<>>]) IN
         IF ~x.ok THEN NoEnv ELSE [ok |-> TRUE, env |-> (name :> [k |-> "variant", f |-> x.f]) @@ x.env]
    [] OTHER -> [ok |-> TRUE, env |-> env]
ByteOrder(ns) == SortSeq(ns, LAMBDA a, b : Lex(a, b) < 0)
Meaning(d) ==
  IF ~Distinct(Names0(d)) THEN NoEnv
  ELSE FoldLeft(LAMBDA r, x : IF r.ok THEN Fill(r.env, x) ELSE r, [ok |-> TRUE, env |-> Defined(d)], ByteOrder(Names0(d)))
MeaningOf(r) == IF r.ok THEN Meaning(r.d) ELSE NoEnv
\* a type name used with a loaded ABI
Query(env, name) == GetType(env, name, 0)

\* ---------------------------------------------------------------- the same, said without an algorithm
\* (a target is defined, or carries a suffix)
KindOf(def, x) == IF x \in DOMAIN def THEN def[x].k ELSE IF Ends(x, Qm) THEN "optional" ELSE IF Ends(x, Br) THEN "array" ELSE "extension"
(* Target(d, n, seen): the non-alias entry that n stands for, or <<>> if there is none. *)
RECURSIVE Target(_, _, _)
Target(def, n, seen) ==
  LET sub(k) == Target(def, Take(n, Len(n) - k), seen)
      wrap(k, bad) == LET x == sub(k) IN IF x = <<>> THEN <<>> ELSE IF KindOf(def, x) \in bad THEN <<>> ELSE n
  IN IF n \in seen THEN <<>>
     ELSE IF n \in DOMAIN def THEN
       (IF def[n].k = "alias def" THEN LET x == Target(def, def[n].of, seen \cup {n}) IN IF x = <<>> THEN <<>> ELSE IF KindOf(def, x) = "extension" THEN <<>> ELSE x ELSE n)
     ELSE IF Ends(n, Qm) THEN wrap(1, Wrapped) ELSE IF Ends(n, Br) THEN wrap(2, Wrapped) ELSE IF Ends(n, Dl) THEN wrap(1, {"extension"}) ELSE <<>>
RECURSIVE Fields(_, _, _)
Fields(def, n, seen) == \* [ok, f] of a struct
  LET e == def[n]
      own == [i \in 1..Len(e.f) |-> [n |-> e.f[i].n, t |-> Target(def, e.f[i].t, {})]]
      b == IF e.b = <<>> THEN <<>> ELSE Target(def, e.b, {})
      bf == IF e.b = <<>> THEN [ok |-> TRUE, f |-> <<>>]
            ELSE IF b = <<>> \/ b \in seen \/ b \notin DOMAIN def THEN [ok |-> FALSE]
            ELSE IF def[b].k = "struct" THEN [ok |-> TRUE, f |-> def[b].f]
            ELSE IF def[b].k # "struct def" THEN [ok |-> FALSE] ELSE Fields(def, b, seen \cup {b})
  IN IF \E i \in 1..Len(own) : own[i].t = <<>> THEN [ok |-> FALSE] ELSE IF ~bf.ok THEN bf ELSE [ok |-> TRUE, f |-> bf.f \o own]
Declared(d) ==
  LET def == Defined(d)
      entry(n) == CASE def[n].k = "alias def" -> LET x == Target(def, n, {}) IN [ok |-> x # <<>>, e |-> [k |-> "alias", of |-> x]]
                    [] def[n].k = "struct def" -> LET x == Fields(def, n, {n}) IN [ok |-> x.ok, e |-> IF x.ok THEN StructE(x.f) ELSE def[n]]
                    [] def[n].k = "variant def" -> LET f == [i \in 1..Len(def[n].ts) |-> [n |-> def[n].ts[i], t |-> Target(def, def[n].ts[i], {})]] IN
                         [ok |-> \A i \in 1..Len(f) : f[i].t # <<>>, e |-> [k |-> "variant", f |-> f]]
                    [] OTHER -> [ok |-> TRUE, e |-> def[n]]
      es == [n \in DOMAIN def |-> entry(n)]
  IN IF ~Distinct(Names0(d)) THEN NoEnv ELSE IF \E n \in DOMAIN def : ~es[n].ok THEN NoEnv
     ELSE [ok |-> TRUE, env |-> [n \in DOMAIN def |-> es[n].e]]

\* ---------------------------------------------------------------- writing definitions
Q(t) == <<34>> \o t \o <<34>>
RECURSIVE JoinC(_)
JoinC(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44>> \o JoinC(Tail(ts))
ArrText(ts) == <<91>> \o JoinC(ts) \o <<93>>
Member(n, t) == Q(B(n)) \o <<58>> \o t
ObjText(ms) == <<123>> \o JoinC(ms) \o <<125>>
PairText(n, t, x) == ObjText(<<Member(n, Q(x.n)), Member("type", Q(x.t))>>)
\* only for definitions whose texts need no escapes
AbiText(d) == ObjText(<<Member("version", Q(d.version)),
  Member("types", ArrText([i \in 1..Len(d.types) |-> PairText("new_type_name", "type", d.types[i])])),
  Member("structs", ArrText([i \in 1..Len(d.structs) |-> LET s == d.structs[i] IN
     ObjText(<<Member("name", Q(s.n)), Member("base", Q(s.b)), Member("fields", ArrText([j \in 1..Len(s.f) |-> PairText("name", "type", s.f[j])]))>>)])),
  Member("actions", ArrText([i \in 1..Len(d.actions) |-> ObjText(<<Member("name", Q(NameText(d.actions[i].n))), Member("type", Q(d.actions[i].t)), Member("ricardian_contract", Q(<<>>))>>)])),
  Member("tables", ArrText([i \in 1..Len(d.tables) |-> ObjText(<<Member("name", Q(NameText(d.tables[i].n))), Member("index_type", Q(<<>>)), Member("key_names", ArrText(<<>>)), Member("key_types", ArrText(<<>>)), Member("type", Q(d.tables[i].t))>>)])),
  Member("variants", ArrText([i \in 1..Len(d.variants) |-> ObjText(<<Member("name", Q(d.variants[i].n)), Member("types", ArrText([j \in 1..Len(d.variants[i].ts) |-> Q(d.variants[i].ts[j])]))>>)]))>>)
SizedB(b) == VarU32(Len(b)) \o b
Many(bs) == VarU32(Len(bs)) \o Flat(bs)
AbiBin(d) == SizedB(d.version) \o
  Many([i \in 1..Len(d.types) |-> SizedB(d.types[i].n) \o SizedB(d.types[i].t)]) \o
  Many([i \in 1..Len(d.structs) |-> LET s == d.structs[i] IN SizedB(s.n) \o SizedB(s.b) \o Many([j \in 1..Len(s.f) |-> SizedB(s.f[j].n) \o SizedB(s.f[j].t)])]) \o
  Many([i \in 1..Len(d.actions) |-> d.actions[i].n \o SizedB(d.actions[i].t) \o <<0>>]) \o
  Many([i \in 1..Len(d.tables) |-> d.tables[i].n \o <<0, 0, 0>> \o SizedB(d.tables[i].t)]) \o
  <<0, 0, 0>> \o
  (IF d.variants = <<>> THEN <<>> ELSE Many([i \in 1..Len(d.variants) |-> SizedB(d.variants[i].n) \o Many([j \in 1..Len(d.variants[i].ts) |-> SizedB(d.variants[i].ts[j])])]))

\* ---------------------------------------------------------------- export
\* Every user-defined type with the names of the entries it refers to; inherited
\* fields are spelled out, alternatives keep their declared names, and actions
\* and tables are left out.
Exported(d, env) == [version |-> B("eosio::abi/1.0"), actions |-> <<>>, tables |-> <<>>,
  types |-> LET ns == ByteOrder([i \in 1..Len(d.types) |-> d.types[i].n]) IN [i \in 1..Len(ns) |-> [n |-> ns[i], t |-> env[ns[i]].of]],
  structs |-> LET ns == ByteOrder([i \in 1..Len(d.structs) |-> d.structs[i].n]) IN [i \in 1..Len(ns) |-> [n |-> ns[i], b |-> <<>>, f |-> env[ns[i]].f]],
  variants |-> LET ns == ByteOrder([i \in 1..Len(d.variants) |-> d.variants[i].n]) IN
    [i \in 1..Len(ns) |-> [n |-> ns[i], ts |-> [j \in 1..Len(env[ns[i]].f) |-> env[ns[i]].f[j].n]]]]
ExportKeeps(d) == LET m == Meaning(d) IN m.ok => LET x == Meaning(Exported(d, m.env)) IN
  x.ok /\ \A n \in Range(Names0(d)) : x.env[n] = m.env[n]

\* ---------------------------------------------------------------- what a context answers
\* the last entry of a name wins
LookUp(xs, n) == LET s == {i \in 1..Len(xs) : xs[i].n = n} IN IF s = {} THEN FAIL ELSE OK(<<xs[CHOOSE i \in s : \A j \in s : j <= i].t>>)
=============================================================================
