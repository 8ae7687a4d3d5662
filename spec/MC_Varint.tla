----------------------------- MODULE MC_Varint ------------------------------
(* The decoder as a machine that is vFed one byte at a time, over a boundary   *)
(* alphabet; every reachable stop is checked against the functional spec and  *)
(* emitted as a test for the code.                                            *)
EXTENDS Wire, Json
CONSTANT Limit                 \* 5 or 10
W == IF Limit = 5 THEN 4 ELSE 8
AlFull == IF Limit = 5 THEN {0, 1, 15, 16, 127, 128, 129, 143, 255} ELSE {0, 1, 127, 128, 255}
AlSmall == {1, 128, 255}
CONSTANT Al
VARIABLES vFed, vAcc, vSt         \* bytes fed, accumulated groups, "more"/"done"/"fail"
vars == <<vFed, vAcc, vSt>>
Init == vFed = <<>> /\ vAcc = <<>> /\ vSt = "more"
Feed(b) == /\ vSt = "more" /\ Len(vFed) < Limit + 1
           /\ vFed' = Append(vFed, b)
           /\ IF Len(vFed) = Limit THEN vSt' = "fail" /\ vAcc' = vAcc
              ELSE vAcc' = Append(vAcc, b % 128) /\ vSt' = IF b < 128 THEN "done" ELSE "more"
Next == \E b \in Al : Feed(b)
Emit == (vSt' # "more" \/ Len(vFed') > Limit - 2) => PrintT("CASE " \o ToJson([b |-> vFed']))
Spec == Init /\ [][Next /\ Emit]_vars
Val == LET bits == Flat([j \in 1..Len(vAcc) |-> BitsOf(vAcc[Len(vAcc) + 1 - j], 7)])
           full == Rep(0, 8 * W) \o bits
       IN BitsNum(SubSeq(full, Len(full) - 8 * W + 1, Len(full)))
Dec == VarDec(vFed \o <<0>>, 1, Limit, W)
Agree == vSt = "done" => VarDec(vFed, 1, Limit, W) = [ok |-> TRUE, v |-> Val, next |-> Len(vFed) + 1]
Short == vSt = "more" => ~VarDec(vFed, 1, Limit, W).ok
TooLong == vSt = "fail" => ~VarDec(vFed, 1, Limit, W).ok
\* minimal encodings decode to themselves; any decodable value re-encodes no longer than what was read
Minimal == vSt = "done" => LET r == VarEnc(Val) IN
  /\ Len(r) <= Len(vFed) \/ Len(vFed) = Limit
  /\ VarDec(r, 1, Limit, W) = [ok |-> TRUE, v |-> Val, next |-> Len(r) + 1]
  /\ Limit = 5 => UnZigZag(ZigZag(Val)) = Val /\ ZigZag(UnZigZag(Val)) = Val
=============================================================================
