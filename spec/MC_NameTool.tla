----------------------------- MODULE MC_NameTool -----------------------------
(***************************************************************************)
(* The tool as the process it is: it looks at one argument after another,    *)
(* then converts one thing after another.  Whatever the order of options and  *)
(* values, it ends where Call says; and what it printed, given back to it      *)
(* with the direction turned, comes out as it went in.                         *)
(***************************************************************************)
EXTENDS NameTool, Json, FiniteSetsExt
CONSTANT MaxArgs
Alphabet == TLCEval({B("-r"), B("-x"), B("-d"), B("-xrd"), B("--reverse"), B("--dec"), B("--hex"), B("--help"), B("-rh"), B("-q"), B("--rev"),
             <<>>, B("eosio"), B("zzzzzzzzzzzzj"), B("zzzzzzzzzzzzk"), B("A"), B("1"), B("a."), B(".a"), B("0"), B("017"), B("08"), B("0x1F"), B("0x"), B("18446744073709551615"), B("18446744073709551616")})
Inputs == TLCEval({<<>>, B("1") \o <<10>> \o B("eosio") \o <<10>>, <<10>>, B("2"), B("x") \o <<0>> \o <<10, 10>> \o B("0x2")})
Progs == TLCEval({B("name2num"), B("./num2name"), B("name")})
VARIABLES vProg, vInput, vArgs, vAt, vToNum, vHex, vItems, vOut, vBad, vSt
vars == <<vProg, vInput, vArgs, vAt, vToNum, vHex, vItems, vOut, vBad, vSt>>
Init == /\ vProg \in Progs /\ vInput \in Inputs /\ vArgs = <<>> /\ vAt = 1 /\ vToNum = Within(vProg, B("name2num"), 1) /\ vHex = TRUE
        /\ vItems = <<>> /\ vOut = <<>> /\ vBad = FALSE /\ vSt = "args"
\* the next argument (chosen as it is looked at)
Letter(m, c) ==
  IF m.st # "args" THEN m
  ELSE CASE c = 114 -> [m EXCEPT !.r = ~@] [] c = 120 -> [m EXCEPT !.x = TRUE] [] c = 100 -> [m EXCEPT !.x = FALSE] [] OTHER -> [m EXCEPT !.st = "usage"]
Argument(a) ==
  /\ vSt = "args" /\ Len(vArgs) < MaxArgs
  /\ vArgs' = Append(vArgs, a)
  /\ LET m == IF IsOption(a) THEN FoldLeft(Letter, [r |-> vToNum, x |-> vHex, st |-> "args"], Letters(a)) ELSE [r |-> vToNum, x |-> vHex, st |-> "args"] IN
       vToNum' = m.r /\ vHex' = m.x /\ vSt' = m.st
  /\ vItems' = IF IsOption(a) THEN vItems ELSE Append(vItems, a)
  /\ UNCHANGED <<vProg, vInput, vAt, vOut, vBad>>
Start ==
  /\ vSt = "args" /\ vSt' = "work"
  /\ vItems' = IF vItems = <<>> THEN Lines(vInput) ELSE vItems
  /\ UNCHANGED <<vProg, vInput, vArgs, vAt, vToNum, vHex, vOut, vBad>>
Work ==
  /\ vSt = "work" /\ vAt <= Len(vItems)
  /\ LET d == One(vItems[vAt], vToNum, vHex) IN vOut' = (IF d.ok THEN vOut \o d.text \o <<10>> ELSE vOut) /\ vBad' = (vBad \/ ~d.ok)
  /\ vAt' = vAt + 1
  /\ UNCHANGED <<vProg, vInput, vArgs, vToNum, vHex, vItems, vSt>>
Done == (vSt = "work" /\ vAt > Len(vItems)) \/ vSt = "usage"
End ==
  /\ Done /\ vSt' = "end"
  /\ PrintT("CASE " \o ToJson([p |-> vProg, i |-> vInput, a |-> vArgs]))
  /\ UNCHANGED <<vProg, vInput, vArgs, vAt, vToNum, vHex, vItems, vOut, vBad>>
Next == (\E a \in Alphabet : Argument(a)) \/ Start \/ Work \/ End
Spec == Init /\ [][Next]_vars
\* --- what holds -------------------------------------------------------------------
AsSaid == Done => LET c == Call(vProg, vInput, vArgs) IN
  IF vSt = "usage" THEN c.status = 2 /\ c.out = <<>> ELSE c.status = (IF vBad THEN 1 ELSE 0) /\ c.out = vOut /\ c.complains = vBad
\* an option means the same before and after the values
Anywhere == (Done /\ vSt = "work") =>
  LET o == SelectSeq(vArgs, IsOption) v == SelectSeq(vArgs, LAMBDA a : ~IsOption(a)) IN Call(vProg, vInput, v \o o) = Call(vProg, vInput, vArgs)
\* its own output, turned around: names lose their last dots, numbers take the form asked for
Again == (Done /\ vSt = "work") =>
  LET c == Call(B("num2name"), vOut, IF vToNum THEN <<>> ELSE <<B("-r")>>)
      back == Call(B("num2name"), c.out, IF vToNum THEN <<B("-r")>> \o (IF vHex THEN <<>> ELSE <<B("-d")>>) ELSE <<>>)
  IN c.status = 0 /\ back.status = 0 /\ back.out = vOut
\* every conversion is one line; a call complains or converts everything
Counted == (Done /\ vSt = "work") => (Cardinality({i \in 1..Len(vOut) : vOut[i] = 10}) = Len(vItems)) = ~vBad
=============================================================================
