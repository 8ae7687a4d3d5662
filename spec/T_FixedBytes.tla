--------------------------- MODULE T_FixedBytes -----------------------------
EXTENDS FixedBytes, Conf
Ord == INSTANCE Order
\* a member that is not a number equals nothing, not even itself; the order of such values is left open
FloatsRel(e, a, b) ==
  LET nan(x) == Ord!IsNaNBits(x[1], Ord!Fmt32) \/ Ord!IsNaNBits(x[3], Ord!Fmt64)
      c == First(<<Ord!CmpFloat(a[1], b[1]), Cmp(a[2], b[2]), Ord!CmpFloat(a[3], b[3])>>)
      rel(x, y, got) == IF nan(x) \/ nan(y) THEN Take(got, 2) = <<<<0>>, <<1>>>> ELSE got = Rel(IF x = y THEN 0 ELSE c)
  IN Holds(e, e.st = "ok" /\ Len(e.out) = 12 /\ rel(a, b, Take(e.out, 6)) /\ rel(a, a, Drop(e.out, 6)), "members compared one after the other")
Q(t) == <<34>> \o t \o <<34>>
Shown(b, w) == LET j == Q(HexUpper(b)) IN
  OK(<<b, ToWords(b, 1), ToWords(b, 2), ToWords(b, 4), ToWords(b, 8), ToWords(b, w), b, j, <<1>>, <<1>> >>)
FixedJudge(e) ==
  LET a == e.in n == a[1][1] w == a[2][1] IN
  CASE e.op = "fb_make" -> Is(e, Shown(FromWords(a[5], a[3][1], n), w))
    [] e.op = "fb_seq" -> Is(e, Shown(FromWords(a[4], a[3][1], n), w))
    [] e.op = "fb_list" -> Is(e, Shown(FromWords(a[1], 1, 5), 8))
    [] e.op = "fb_json" -> LET s == a[3] IN
         Is(e, IF Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34 /\ Len(s) = 2 * n + 2 /\ IsHex(SubSeq(s, 2, Len(s) - 1)) THEN OK(<<UnHex(SubSeq(s, 2, Len(s) - 1))>>) ELSE FAIL)
    [] e.op = "fb_bin" -> Is(e, IF Len(a[3]) >= n THEN OK(<<Take(a[3], n), NumW(Len(a[3]) - n, 4)>>) ELSE FAIL)
    [] e.op = "fb_cmp" -> Is(e, OK(Rel(Lex(a[3], a[4]))))
    [] e.op = "st_cmp" -> Is(e, OK(Rel(First(<<SCmp(a[1], a[7]), Lex(a[2], a[8]), Cmp(a[3], a[9]), SCmp(a[4], a[10]), Lex(a[5], a[11]), SLex(a[6], a[12], 1)>>))))
    [] e.op = "sf_cmp" -> FloatsRel(e, Take(a, 3), Drop(a, 3))
    [] e.op = "sd_cmp" -> Is(e, OK(Rel(First(<<Cmp(a[1], a[4]), SCmp(a[2], a[5]), Cmp(a[3], a[6])>>))))
=============================================================================
