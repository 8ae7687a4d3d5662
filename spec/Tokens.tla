------------------------------- MODULE Tokens --------------------------------
(***************************************************************************)
(* Reading a JSON text token by token.  The reader stands before one token    *)
(* of the text; it may hold that token (it was looked at) or not yet.  What    *)
(* asks for a token and finds another one leaves the reader where it is; what   *)
(* finds the token it asks for moves behind it.                                  *)
(***************************************************************************)
EXTENDS JsonText

Start0 == [at |-> 1, held |-> FALSE]
TokenAt(ev, m) == IF m.at <= Len(ev) THEN ev[m.at] ELSE Ev("unread")
Kind(t) == CASE t \in {"str", "num"} -> "str" [] t \in {"true", "false"} -> "bool" [] OTHER -> t
\* all tokens have been produced
Through(ev, m) == m.at > Len(ev) \/ (m.at = Len(ev) /\ m.held)
Looked(ev, m) == [m EXCEPT !.held = m.at <= Len(ev)]
Behind1(m) == [at |-> m.at + 1, held |-> FALSE]
\* what a token carries
Carries(x) == CASE x.t = "true" -> <<1>> [] x.t = "false" -> <<0>> [] OTHER -> x.v
KindNo == TLCEval([k \in {"unread", "null", "bool", "str", "{", "key", "}", "[", "]"} |->
             CASE k = "unread" -> 0 [] k = "null" -> 1 [] k = "bool" -> 2 [] k = "str" -> 3 [] k = "{" -> 4 [] k = "key" -> 5 [] k = "}" -> 6 [] k = "[" -> 7 [] OTHER -> 8])
\* asking for a token: refused / says no / taken
Wanted == TLCEval([o \in {"b", "s", "o", "k", "C", "A", "Z", "N", "m", "n", "c", "a", "z"} |->
             CASE o = "b" -> "bool" [] o = "s" -> "str" [] o = "o" -> "{" [] o \in {"k", "m"} -> "key" [] o \in {"C", "c"} -> "}"
               [] o \in {"A", "a"} -> "[" [] o \in {"Z", "z"} -> "]" [] OTHER -> "null"])
AsksIf == {"m", "n", "c", "a", "z"}    \* these answer yes or no
Carried == {"b", "s", "k", "m"}        \* these answer with what the token carries
ReaderOps == (DOMAIN Wanted) \cup {"p", "e", "E", "x"}
\* one call: the reader afterwards, whether it was refused, the answer
Did(m, ok, ans) == [m |-> m, ok |-> ok, ans |-> ans]
Do1(ev, m, o) ==
  CASE o = "p" -> LET x == TokenAt(ev, m) IN Did(Looked(ev, m), TRUE, <<KindNo[Kind(x.t)]>> \o Carries(x))
    [] o = "e" -> Did(IF m.held THEN Behind1(m) ELSE m, TRUE, <<>>)
    [] o = "x" -> Did(m, TRUE, IF Through(ev, m) THEN <<1>> ELSE <<0>>)
    [] o = "E" -> Did(m, m.at > Len(ev), <<>>)
    [] OTHER ->
       LET x == TokenAt(ev, m) hit == Kind(x.t) = Wanted[o] IN
       Did(IF hit THEN Behind1(m) ELSE Looked(ev, m), hit \/ o \in AsksIf,
           (IF o \in AsksIf THEN (IF hit THEN <<1>> ELSE <<0>>) ELSE <<>>) \o (IF hit /\ o \in Carried THEN Carries(x) ELSE <<>>))
RECURSIVE DoFrom(_, _, _, _, _)
DoFrom(ev, m, ops, i, acc) == IF i > Len(ops) THEN acc ELSE
  LET d == Do1(ev, m, ops[i]) IN DoFrom(ev, d.m, ops, i + 1, Append(acc, <<IF d.ok THEN 1 ELSE 0>> \o d.ans))
\* the answers to a sequence of calls; the strings handed out stay as they are
DoAll(ev, ops) == DoFrom(ev, Start0, ops, 1, <<>>)
=============================================================================
