------------------------------- MODULE T_Time -------------------------------
EXTENDS Time, Conf
Q(t) == <<34>> \o t \o <<34>>
NonNeg(x) == ~IsNeg(x)
\* accept anything where the text denotes no instant
Free(e) == Holds(e, TRUE, <<>>)
Uns(x) == DivSmall(x, 1000000).q
SlotOr(e, us, r) == IF Slot(us).in THEN Is(e, r) ELSE Free(e)
TimeJudge(e) ==
  LET x == e.in[1] IN
  CASE e.op = "tp_print" -> IF ~Split(x).in THEN Free(e) ELSE
         LET t == TimeText(x) IN Is(e, OK(<<t, Q(t), Q(t)>>))
    [] e.op = "tps_print" -> LET t == TimeText(SecUs(x)) IN Is(e, OK(<<Q(t)>>))
    [] e.op = "bt_print" -> LET t == TimeText(BlockUs(x)) IN Is(e, OK(<<Q(t)>>))
    [] e.op \in {"tp_parse", "tp_json"} -> LET p == ParseTime(x, 6) IN
         IF ~p.form THEN Is(e, FAIL) ELSE IF ~p.fields THEN Free(e) ELSE Is(e, OK(<<p.us>>))
    [] e.op \in {"tps_parse", "tps_json"} -> LET p == ParseTime(x, -1) IN
         IF ~p.form THEN Is(e, FAIL) ELSE IF ~p.fields THEN Free(e)
         ELSE Is(e, IF Fits32(p.sec) THEN OK(<<Take(p.sec, 4)>>) ELSE FAIL)
    [] e.op = "bt_json" -> LET p == ParseTime(x, 6) IN
         IF ~p.form THEN Is(e, FAIL) ELSE IF ~p.fields THEN Free(e) ELSE SlotOr(e, p.us, OK(<<Slot(p.us).slot>>))
    \* conversions of instants
    [] e.op = "tp_conv" -> LET s == Slot(x) sec == Uns(x) IN
         IF ~s.in \/ ~IsZero(Drop(sec, 4)) THEN Free(e)
         ELSE Is(e, OK(<<Take(sec, 4), Take(sec, 4), SecUs(Take(sec, 4)), s.slot, BlockUs(s.slot), sec>>))
    [] e.op = "tps_conv" -> LET us == SecUs(x) s == Slot(us) IN SlotOr(e, us, OK(<<us, s.slot, BlockUs(s.slot)>>))
    [] e.op = "bt_conv" -> LET us == BlockUs(x) IN Is(e, OK(<<us, us, x>>))
    [] e.op = "bt_next" -> Is(e, IF \A i \in 1..4 : x[i] = 255 THEN FAIL ELSE OK(<<Add(x, <<1, 0, 0, 0>>)>>))
    [] e.op = "tp_arith" -> LET y == e.in[2] IN
         Is(e, OK(<<Add(x, y), Sub(x, y), Sub(x, y), Bit(SCmp(x, y) < 0), Bit(SCmp(x, y) = 0)>>))
    \* the ABI conversions: 8 / 4 / 4 bytes
    [] e.op = "time_abi" -> LET b == e.in[2] t == TimeText(IF x = B("time_point") THEN b ELSE IF x = B("time_point_sec") THEN SecUs(b) ELSE BlockUs(b)) IN
         IF x = B("time_point") /\ ~Split(b).in THEN Free(e)
         ELSE Is(e, OK(<<Q(t), IF x = B("time_point") THEN Sub(b, Num8(DivSmall(Since0(b), 1000).r)) ELSE b>>))
=============================================================================
