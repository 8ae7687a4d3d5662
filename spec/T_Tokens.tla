------------------------------ MODULE T_Tokens -------------------------------
EXTENDS Tokens, Conf
Letter(c) == CASE c = 112 -> "p" [] c = 101 -> "e" [] c = 69 -> "E" [] c = 120 -> "x" [] c = 98 -> "b" [] c = 115 -> "s" [] c = 111 -> "o" [] c = 107 -> "k"
               [] c = 109 -> "m" [] c = 67 -> "C" [] c = 99 -> "c" [] c = 65 -> "A" [] c = 97 -> "a" [] c = 90 -> "Z" [] c = 122 -> "z" [] c = 78 -> "N" [] c = 110 -> "n"
\* up to the first refusal
RECURSIVE Until(_, _)
Until(w, i) == IF i > Len(w) \/ w[i][1] = 0 THEN Take(w, IF i > Len(w) THEN Len(w) ELSE i) ELSE Until(w, i + 1)
\* e.in: text, calls, whether to stop at the first refusal; e.out: the answers, and the strings handed out, read again at the end
TokensJudge(e) ==
  LET r == Events(e.in[1]) ops == [i \in 1..Len(e.in[2]) |-> Letter(e.in[2][i])] stop == e.in[3] = B("1") IN
  IF e.st # "ok" THEN Holds(e, FALSE, "answers")
  ELSE IF LoneLow(e.in[1]) THEN Holds(e, TRUE, "")
  ELSE IF r.ok THEN LET w == DoAll(r.ev, ops) v == IF stop THEN Until(w, 1) ELSE w IN Is(e, OK(v \o v))
  ELSE LET n == Len(e.out) \div 2 IN
       Holds(e, n <= Len(ops) /\ (n < Len(ops) => e.out[n][1] = 0) /\ \A i \in 1..n : e.out[i][1] = 1 => (ops[i] = "x" => e.out[i][2] = 0) /\ ops[i] # "E", "no way through a text that is not JSON")
=============================================================================
