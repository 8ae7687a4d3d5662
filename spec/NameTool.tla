------------------------------ MODULE NameTool ------------------------------
(***************************************************************************)
(* The command-line tool: called as name2num it turns names into values,    *)
(* called as num2name values into names; -r the other way around.  Options   *)
(* may stand anywhere and apply to everything.  What it converts are the      *)
(* other arguments, or the lines of its input when there are none.            *)
(***************************************************************************)
EXTENDS Names

\* --- a number as C programs read them -------------------------------------------
BaseDigits(s, m, w) ==
  FoldLeft(LAMBDA acc, c : IF ~acc.ok \/ HexVal(c) < 0 \/ HexVal(c) >= m THEN [ok |-> FALSE, v |-> Zero(w)]
                           ELSE LET t == MulAdd(acc.v, m, HexVal(c)) IN [ok |-> t.c = 0, v |-> t.v],
           [ok |-> Len(s) > 0, v |-> Zero(w)], s)
CNumber(s) ==
  IF s = <<>> THEN [ok |-> FALSE, v |-> Zero(8)]
  ELSE IF s[1] # 48 THEN BaseDigits(s, 10, 8)
  ELSE IF Len(s) = 1 THEN [ok |-> TRUE, v |-> Zero(8)]
  ELSE IF s[2] \in {88, 120} THEN BaseDigits(Drop(s, 2), 16, 8)
  ELSE BaseDigits(Drop(s, 1), 8, 8)
\* blanks and signs in front of a number, and binary ones (newer C libraries read these), are not specified
OpenNumber(s) == Len(s) > 0 /\ (s[1] \in {9, 10, 11, 12, 13, 32, 43, 45} \/ (s[1] = 48 /\ Len(s) > 1 /\ s[2] \in {66, 98}))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Drop(s, 1)) ELSE s
HexNumber(v) == LET d == NoZeros([i \in 1..(2 * Len(v)) |-> LET b == v[Len(v) + 1 - (i + 1) \div 2] IN HexL[1 + (IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]])
                IN IF d = <<48>> THEN d ELSE B("0x") \o d

\* --- one conversion ----------------------------------------------------------------
Nope == [ok |-> FALSE, text |-> <<>>]
One(s, toNum, hex) ==
  IF toNum THEN (IF StrictOK(s) THEN [ok |-> TRUE, text |-> IF hex THEN HexNumber(NameOf(s)) ELSE DecText(NameOf(s))] ELSE Nope)
  ELSE LET n == CNumber(s) IN IF n.ok THEN [ok |-> TRUE, text |-> NameText(n.v)] ELSE Nope

\* --- arguments ---------------------------------------------------------------------
IsOption(a) == Len(a) > 0 /\ a[1] = 45
LongForm == <<[a |-> B("--help"), c |-> 104], [a |-> B("--reverse"), c |-> 114], [a |-> B("--hex"), c |-> 120], [a |-> B("--dec"), c |-> 100]>>
\* an option as letters; "?": not an option there is
Letters(a) == LET k == {i \in 1..Len(LongForm) : LongForm[i].a = a} IN
  IF k # {} THEN <<LongForm[CHOOSE i \in k : TRUE].c>> ELSE [i \in 1..(Len(a) - 1) |-> IF a[i + 1] \in {104, 114, 120, 100} THEN a[i + 1] ELSE 63]
RECURSIVE Within(_, _, _)
Within(s, p, i) == i + Len(p) - 1 <= Len(s) /\ (SubSeq(s, i, i + Len(p) - 1) = p \/ Within(s, p, i + 1))
RECURSIVE LinesFrom(_, _)
LinesFrom(s, acc) == LET k == Find(s, 10) IN IF s = <<>> THEN acc ELSE IF k = 0 THEN Append(acc, s) ELSE LinesFrom(Drop(s, k), Append(acc, Take(s, k - 1)))
Lines(s) == LinesFrom(s, <<>>)
\* --- what a call does -----------------------------------------------------------------
Call(calledBy, input, args) ==
  LET opts == Flat([i \in 1..Len(args) |-> IF IsOption(args[i]) THEN Letters(args[i]) ELSE <<>>])
      items == SelectSeq(args, LAMBDA a : ~IsOption(a))
      turns == Len(SelectSeq(opts, LAMBDA c : c = 114))
      forms == SelectSeq(opts, LAMBDA c : c \in {120, 100})
      toNum == Within(calledBy, B("name2num"), 1) # (turns % 2 = 1)
      hex == forms = <<>> \/ forms[Len(forms)] = 120
      todo == IF items = <<>> THEN Lines(input) ELSE items
      done == [i \in 1..Len(todo) |-> One(todo[i], toNum, hex)]
      bad == \E i \in 1..Len(todo) : ~done[i].ok
  IN IF \E i \in 1..Len(opts) : opts[i] \in {104, 63} THEN [out |-> <<>>, status |-> 2, complains |-> TRUE, open |-> FALSE]
     ELSE [out |-> Flat([i \in 1..Len(done) |-> IF done[i].ok THEN Append(done[i].text, 10) ELSE <<>>]), status |-> IF bad THEN 1 ELSE 0, complains |-> bad,
           open |-> (~toNum /\ \E i \in 1..Len(todo) : OpenNumber(todo[i])) \/ <<45>> \in {args[i] : i \in 1..Len(args)}]
=============================================================================
