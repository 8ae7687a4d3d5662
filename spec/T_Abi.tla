------------------------------- MODULE T_Abi --------------------------------
(* Loading an ABI and asking it what names mean.                               *)
EXTENDS Abi, Conf
DefOf(fmt, data) ==
  CASE fmt = B("json") -> AbiOfJson(data)
    [] fmt = B("bin") -> AbiOfBin(data)
    [] fmt = B("hex") -> IF IsHex(data) THEN AbiOfBin(UnHex(data)) ELSE NoDef
Letter == [k \in {"builtin", "optional", "array", "extension", "struct", "variant"} |->
  CASE k = "builtin" -> 98 [] k = "optional" -> 111 [] k = "array" -> 97 [] k = "extension" -> 120 [] k = "struct" -> 115 [] OTHER -> 118]
Describe(env, n) ==
  LET e == env[n] IN
  SizedB(n) \o <<Letter[e.k]>> \o
  (CASE e.k = "builtin" -> <<>>
     [] e.k \in {"optional", "array", "extension"} -> SizedB(e.of)
     [] OTHER -> Flat([i \in 1..Len(e.f) |-> SizedB(e.f[i].n) \o SizedB(e.f[i].t)]))
Fail == <<33>>
\* what a C string shows of a text
CString(b) == LET z == SelectInSeq(b, LAMBDA x : x = 0) IN IF z = 0 THEN b ELSE Take(b, z - 1)
Answer(r, m, q) ==
  LET x == Tail(q) IN
  IF q[1] = 116 THEN LET t == Query(m.env, x) IN IF t.ok THEN Describe(t.env, t.n) ELSE Fail
  ELSE LET a == LookUp(IF q[1] = 65 THEN r.d.actions ELSE r.d.tables, x) IN IF a.ok THEN <<61>> \o CString(a.out[1]) ELSE Fail
\* floats, lone surrogates and names of absurd spelling aside, texts decide everything
AbiJudge(e) ==
  LET r == DefOf(e.in[1], e.in[2])
      m == MeaningOf(r)
      qs == Drop(e.in, 2)
  IN IF e.in[1] = B("json") /\ LoneLow(e.in[2]) THEN Holds(e, TRUE, "")
     ELSE CASE e.op \in {"abi_load", "abi_same"} -> Is(e, IF m.ok THEN OK(<<<<1>>>> \o [i \in 1..Len(qs) |-> Answer(r, m, qs[i])]) ELSE OK(<<<<0>>>>))
            \* exported and loaded again: the same answers for types; actions and tables are not exported
            [] e.op = "abi_export" -> Is(e, IF m.ok THEN OK(<<<<1>>>> \o [i \in 1..Len(qs) |-> Answer(r, m, qs[i])]) ELSE OK(<<<<0>>>>))
=============================================================================
