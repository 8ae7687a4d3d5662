----------------------------- MODULE JsonText ------------------------------
(* RFC 8259 JSON texts and their token events.  An event is [t, v]: t one of   *)
(* "str", "num", "true", "false", "null", "{", "}", "[", "]", "key"; v the     *)
(* bytes of the string, key or number spelling.                                *)
EXTENDS Ints

Ev(t) == [t |-> t, v |-> <<>>]
EvS(s) == [t |-> "str", v |-> s]
EvN(s) == [t |-> "num", v |-> s]
EvK(s) == [t |-> "key", v |-> s]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0 - 1

\* --- UTF-8 ------------------------------------------------------------------
Cont(c) == c >= 128 /\ c <= 191
\* length of the well-formed sequence starting at i, 0 if there is none
Utf8Len(t, i) ==
  LET a == At(t, i) b == At(t, i + 1) c == At(t, i + 2) d == At(t, i + 3) IN
  IF a >= 0 /\ a <= 127 THEN 1
  ELSE IF a >= 194 /\ a <= 223 /\ Cont(b) THEN 2
  ELSE IF a >= 224 /\ a <= 239 /\ Cont(b) /\ Cont(c) /\ (a = 224 => b >= 160) /\ (a = 237 => b <= 159) THEN 3
  ELSE IF a >= 240 /\ a <= 244 /\ Cont(b) /\ Cont(c) /\ Cont(d) /\ (a = 240 => b >= 144) /\ (a = 244 => b <= 143) THEN 4
  ELSE 0
RECURSIVE ValidUtf8From(_, _)
ValidUtf8From(t, i) == i > Len(t) \/ LET n == Utf8Len(t, i) IN n > 0 /\ ValidUtf8From(t, i + n)
ValidUtf8(t) == ValidUtf8From(t, 1)
RECURSIVE SaneFrom(_, _, _)
SaneFrom(t, i, acc) == IF i > Len(t) THEN acc ELSE
  LET n == Utf8Len(t, i) IN IF n = 0 THEN SaneFrom(t, i + 1, Append(acc, 63)) ELSE SaneFrom(t, i + n, acc \o SubSeq(t, i, i + n - 1))
\* what is printed for a string: every byte not part of a well-formed sequence becomes '?'
Sane(t) == SaneFrom(t, 1, <<>>)
Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>

\* --- strings ----------------------------------------------------------------
Bad == [ok |-> FALSE, v |-> <<>>, next |-> 0]
Hex4(t, i) == IF i + 3 <= Len(t) /\ \A k \in 0..3 : HexVal(t[i + k]) >= 0
              THEN ((HexVal(t[i]) * 16 + HexVal(t[i + 1])) * 16 + HexVal(t[i + 2])) * 16 + HexVal(t[i + 3]) ELSE 0 - 1
Simple == TLCEval([c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
             CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c])
\* from just behind the opening quote
RECURSIVE StrFrom(_, _, _)
StrFrom(t, i, acc) ==
  LET c == At(t, i) IN
  IF c < 32 THEN Bad
  ELSE IF c = 34 THEN [ok |-> TRUE, v |-> acc, next |-> i + 1]
  ELSE IF c = 92 THEN
    LET d == At(t, i + 1) IN
    IF d \in DOMAIN Simple THEN StrFrom(t, i + 2, Append(acc, Simple[d]))
    ELSE IF d # 117 THEN Bad
    ELSE LET h == Hex4(t, i + 2) IN
      IF h < 0 THEN Bad
      ELSE IF h >= 55296 /\ h <= 56319 THEN \* surrogate pair
        LET l == IF At(t, i + 6) = 92 /\ At(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE 0 - 1 IN
        IF l >= 56320 /\ l <= 57343 THEN StrFrom(t, i + 12, acc \o Utf8(65536 + (h - 55296) * 1024 + l - 56320)) ELSE Bad
      ELSE StrFrom(t, i + 6, acc \o Utf8(h))
  ELSE LET n == Utf8Len(t, i) IN IF n = 0 THEN Bad ELSE StrFrom(t, i + n, acc \o SubSeq(t, i, i + n - 1))
\* a lone low surrogate written as an escape is not covered by this specification
LoneLow(t) == \E i \in 1..Len(t) : t[i] = 92 /\ At(t, i + 1) = 117 /\ LET h == Hex4(t, i + 2) IN h >= 56320 /\ h <= 57343 /\
   ~(i > 6 /\ t[i - 6] = 92 /\ LET g == Hex4(t, i - 4) IN g >= 55296 /\ g <= 56319)

\* --- numbers: index behind the number starting at i, 0 if malformed -----------
NumEnd(t, i) ==
  LET i0 == IF At(t, i) = 45 THEN i + 1 ELSE i
      i1 == IF At(t, i0) = 48 THEN i0 + 1 ELSE DigitsEnd(t, i0)
      i2 == IF i1 > i0 /\ At(t, i1) = 46 THEN (IF IsDigit(At(t, i1 + 1)) THEN DigitsEnd(t, i1 + 1) ELSE 0) ELSE i1
      i3 == IF i2 > 0 /\ At(t, i2) \in {69, 101} THEN
              LET k == IF At(t, i2 + 1) \in {43, 45} THEN i2 + 2 ELSE i2 + 1 IN IF IsDigit(At(t, k)) THEN DigitsEnd(t, k) ELSE 0
            ELSE i2
  IN IF i1 > i0 THEN i3 ELSE 0

RECURSIVE Blank(_, _)
Blank(t, i) == IF At(t, i) \in WS THEN Blank(t, i + 1) ELSE i
HasAt(t, i, p) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
TrueB == B("true")
FalseB == B("false")
NullB == B("null")
NoJson == [ok |-> FALSE, ev |-> <<>>]
\* st: "val" a value, "val]" a value or ], "key" a key, "key}" a key or }, "more" , or the closing bracket
RECURSIVE Scan(_, _, _, _, _)
Scan(t, i0, st, open, evs) ==
  LET i == Blank(t, i0)
      c == At(t, i)
      after == IF open = <<>> THEN "end" ELSE "more"
      close(ch) == LET o == Take(open, Len(open) - 1) IN Scan(t, i + 1, IF o = <<>> THEN "end" ELSE "more", o, Append(evs, Ev(ch)))
      top == IF open = <<>> THEN 0 ELSE open[Len(open)]
  IN CASE st = "end" -> IF i = Len(t) + 1 THEN [ok |-> TRUE, ev |-> evs] ELSE NoJson
       [] st \in {"key", "key}"} ->
            IF st = "key}" /\ c = 125 THEN close("}")
            ELSE IF c # 34 THEN NoJson
            ELSE LET s == StrFrom(t, i + 1, <<>>) k == IF s.ok THEN Blank(t, s.next) ELSE 0 IN
                 IF s.ok /\ At(t, k) = 58 THEN Scan(t, k + 1, "val", open, Append(evs, EvK(s.v))) ELSE NoJson
       [] st = "more" -> IF c = 44 THEN Scan(t, i + 1, IF top = 123 THEN "key" ELSE "val", open, evs)
                         ELSE IF c = 125 /\ top = 123 THEN close("}")
                         ELSE IF c = 93 /\ top = 91 THEN close("]") ELSE NoJson
       [] OTHER -> \* a value
            IF st = "val]" /\ c = 93 THEN close("]")
            ELSE IF c = 123 THEN Scan(t, i + 1, "key}", Append(open, 123), Append(evs, Ev("{")))
            ELSE IF c = 91 THEN Scan(t, i + 1, "val]", Append(open, 91), Append(evs, Ev("[")))
            ELSE IF c = 34 THEN LET s == StrFrom(t, i + 1, <<>>) IN IF s.ok THEN Scan(t, s.next, after, open, Append(evs, EvS(s.v))) ELSE NoJson
            ELSE IF HasAt(t, i, TrueB) THEN Scan(t, i + 4, after, open, Append(evs, Ev("true")))
            ELSE IF HasAt(t, i, FalseB) THEN Scan(t, i + 5, after, open, Append(evs, Ev("false")))
            ELSE IF HasAt(t, i, NullB) THEN Scan(t, i + 4, after, open, Append(evs, Ev("null")))
            ELSE IF c = 45 \/ IsDigit(c) THEN LET k == NumEnd(t, i) IN IF k > 0 THEN Scan(t, k, after, open, Append(evs, EvN(SubSeq(t, i, k - 1)))) ELSE NoJson
            ELSE NoJson
\* the events of a text that is one JSON value
Events(t) == Scan(t, 1, "val", <<>>, <<>>)

\* --- structure of event sequences ---------------------------------------------
\* index behind the value starting at i
RECURSIVE Behind(_, _, _)
Behind(e, i, depth) ==
  LET d == IF e[i].t \in {"{", "["} THEN depth + 1 ELSE IF e[i].t \in {"}", "]"} THEN depth - 1 ELSE depth IN
  IF d = 0 /\ e[i].t # "key" THEN i + 1 ELSE Behind(e, i + 1, d)
ValueEnd(e, i) == Behind(e, i, 0)
\* deepest nesting of containers; full = containers at the deepest allowed level must be empty
RECURSIVE DepthFrom(_, _, _, _)
DepthFrom(e, i, d, m) ==
  IF i > Len(e) THEN m ELSE
  LET x == e[i].t
      d2 == IF x \in {"{", "["} THEN d + 1 ELSE IF x \in {"}", "]"} THEN d - 1 ELSE d
  IN DepthFrom(e, i + 1, d2, IF d2 > m THEN d2 ELSE m)
JsonDepth(e) == DepthFrom(e, 1, 0, 0)
\* is there any value inside a container of depth n?
RECURSIVE InsideAt(_, _, _, _)
InsideAt(e, i, d, n) ==
  IF i > Len(e) THEN FALSE ELSE
  LET x == e[i].t IN
  IF x \notin {"}", "]", "key"} /\ d = n THEN TRUE
  ELSE InsideAt(e, i + 1, IF x \in {"{", "["} THEN d + 1 ELSE IF x \in {"}", "]"} THEN d - 1 ELSE d, n)
=============================================================================
